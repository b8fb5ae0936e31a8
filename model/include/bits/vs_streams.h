// Model of the C++ text streams for the symbolic executor.  The text is kept
// in memory; floating-point numbers written to a stream become tokens
// (ESC hhhhhhhh FS) that carry the exact value and the format in effect.
#ifndef VS_STREAMS_H
#define VS_STREAMS_H 1
#include <bits/c++config.h>
#include <iosfwd>
#include <string>
#include <stdexcept>
#include <cstdint>
#include <cstddef>
#include <new>

extern "C"
{
  int vs_tok_write (double v, int precision, int flags, int width);
  double vs_tok_value (int i);
  double vs_text_double (const char *s, int n);
}

namespace std
{
class locale
{
public:
  locale () {}
  explicit locale (const char *) {}
  static const locale &
  classic ()
  {
    static locale l;
    return l;
  }
};

class ios_base
{
public:
  typedef unsigned fmtflags;
  typedef unsigned iostate;
  typedef unsigned openmode;
  enum seekdir
  {
    beg = 0,
    cur = 1,
    end = 2
  };
  static const fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128,
                        scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096,
                        unitbuf = 8192, uppercase = 16384, adjustfield = 16 | 32 | 128, basefield = 2 | 8 | 64,
                        floatfield = 4 | 256;
  static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  class failure : public runtime_error
  {
  public:
    explicit failure (const string &s) : runtime_error (s) {}
  };
  class Init
  {
  public:
    Init () {}
    ~Init () {}
  };
  static bool
  sync_with_stdio (bool = true)
  {
    return true;
  }
  fmtflags
  flags () const
  {
    return _f;
  }
  fmtflags
  flags (fmtflags f)
  {
    fmtflags o = _f;
    _f = f;
    return o;
  }
  fmtflags
  setf (fmtflags f)
  {
    fmtflags o = _f;
    _f |= f;
    return o;
  }
  fmtflags
  setf (fmtflags f, fmtflags m)
  {
    fmtflags o = _f;
    _f = (_f & ~m) | (f & m);
    return o;
  }
  void
  unsetf (fmtflags m)
  {
    _f &= ~m;
  }
  streamsize
  precision () const
  {
    return _p;
  }
  streamsize
  precision (streamsize p)
  {
    streamsize o = _p;
    _p = p;
    return o;
  }
  streamsize
  width () const
  {
    return _w;
  }
  streamsize
  width (streamsize w)
  {
    streamsize o = _w;
    _w = w;
    return o;
  }
  locale
  getloc () const
  {
    return locale ();
  }
  locale
  imbue (const locale &)
  {
    return locale ();
  }
  virtual ~ios_base () {}

protected:
  ios_base () : _f (dec | skipws), _p (6), _w (0) {}
  fmtflags _f;
  streamsize _p;
  streamsize _w;
};

template <class C, class T> class basic_streambuf
{
public:
  typedef C char_type;
  typedef T traits_type;
  typedef typename T::int_type int_type;
  typedef typename T::pos_type pos_type;
  typedef typename T::off_type off_type;
  virtual ~basic_streambuf () {}
  int_type
  sgetc ()
  {
    return _g < _s.size () ? T::to_int_type (_s[_g]) : T::eof ();
  }
  int_type
  sbumpc ()
  {
    return _g < _s.size () ? T::to_int_type (_s[_g++]) : T::eof ();
  }
  int_type
  snextc ()
  {
    if (_g < _s.size ())
      ++_g;
    return sgetc ();
  }
  int_type
  sputbackc (C c)
  {
    if (_g == 0)
      return T::eof ();
    --_g;
    _s[_g] = c;
    return T::to_int_type (c);
  }
  int_type
  sungetc ()
  {
    if (_g == 0)
      return T::eof ();
    --_g;
    return T::to_int_type (_s[_g]);
  }
  streamsize
  in_avail ()
  {
    return _s.size () - _g;
  }
  int_type
  sputc (C c)
  {
    _s.push_back (c);
    dirty ();
    return T::to_int_type (c);
  }
  streamsize
  sputn (const C *s, streamsize n)
  {
    _s.append (s, n);
    dirty ();
    return n;
  }
  streamsize
  sgetn (C *s, streamsize n)
  {
    streamsize i = 0;
    while (i < n && _g < _s.size ())
      s[i++] = _s[_g++];
    return i;
  }
  int
  pubsync ()
  {
    return 0;
  }
  basic_string<C, T> _s;
  size_t _g;

protected:
  basic_streambuf () : _s (), _g (0) {}
  virtual void
  dirty ()
  {
  }
};

template <class C, class T> class basic_ostream;

template <class C, class T> class basic_ios : public ios_base
{
public:
  typedef C char_type;
  typedef T traits_type;
  typedef typename T::int_type int_type;
  typedef typename T::pos_type pos_type;
  typedef typename T::off_type off_type;
  explicit basic_ios (basic_streambuf<C, T> *b) : _b (b), _st (b ? goodbit : badbit), _ex (goodbit), _fill (' ') {}
  basic_ios () : _b (0), _st (badbit), _ex (goodbit), _fill (' ') {}
  explicit operator bool () const { return !fail (); }
  bool
  operator! () const
  {
    return fail ();
  }
  iostate
  rdstate () const
  {
    return _st;
  }
  void
  clear (iostate s = goodbit)
  {
    _st = _b ? s : (s | badbit);
    if (_ex & _st)
      throw failure ("basic_ios::clear");
  }
  void
  setstate (iostate s)
  {
    clear (_st | s);
  }
  bool
  good () const
  {
    return _st == goodbit;
  }
  bool
  eof () const
  {
    return (_st & eofbit) != 0;
  }
  bool
  fail () const
  {
    return (_st & (failbit | badbit)) != 0;
  }
  bool
  bad () const
  {
    return (_st & badbit) != 0;
  }
  iostate
  exceptions () const
  {
    return _ex;
  }
  void
  exceptions (iostate e)
  {
    _ex = e;
    clear (_st);
  }
  basic_streambuf<C, T> *
  rdbuf () const
  {
    return _b;
  }
  basic_streambuf<C, T> *
  rdbuf (basic_streambuf<C, T> *b)
  {
    basic_streambuf<C, T> *o = _b;
    _b = b;
    clear ();
    return o;
  }
  basic_ios &
  copyfmt (const basic_ios &o)
  {
    _f = o._f;
    _p = o._p;
    _w = o._w;
    _fill = o._fill;
    return *this;
  }
  C
  fill () const
  {
    return _fill;
  }
  C
  fill (C c)
  {
    C o = _fill;
    _fill = c;
    return o;
  }
  basic_ostream<C, T> *
  tie () const
  {
    return 0;
  }
  basic_ostream<C, T> *
  tie (basic_ostream<C, T> *)
  {
    return 0;
  }
  C
  widen (char c) const
  {
    return c;
  }
  char
  narrow (C c, char) const
  {
    return c;
  }

protected:
  void
  init (basic_streambuf<C, T> *b)
  {
    _b = b;
    _st = b ? goodbit : badbit;
    _ex = goodbit;
    _fill = ' ';
  }
  basic_streambuf<C, T> *_b;
  iostate _st;
  iostate _ex;
  C _fill;
};

template <class C, class T> class basic_ostream : virtual public basic_ios<C, T>
{
public:
  typedef basic_ios<C, T> ios_type;
  typedef typename T::pos_type pos_type;
  explicit basic_ostream (basic_streambuf<C, T> *b) { this->init (b); }
  virtual ~basic_ostream () {}
  class sentry
  {
  public:
    explicit sentry (basic_ostream &o) : _ok (o.good ()) {}
    explicit operator bool () const { return _ok; }

  private:
    bool _ok;
  };
  basic_ostream &
  operator<< (basic_ostream &(*f) (basic_ostream &))
  {
    return f (*this);
  }
  basic_ostream &
  operator<< (ios_type &(*f) (ios_type &))
  {
    f (*this);
    return *this;
  }
  basic_ostream &
  operator<< (ios_base &(*f) (ios_base &))
  {
    f (*this);
    return *this;
  }
  basic_ostream &
  operator<< (double v)
  {
    if (this->good ())
      {
        const int k = vs_tok_write (v, int (this->_p), int (this->_f), int (this->_w));
        this->_w = 0;
        char t[10];
        t[0] = 27;
        for (int i = 0; i < 8; ++i)
          t[1 + i] = "0123456789abcdef"[(k >> (28 - 4 * i)) & 15];
        t[9] = 28;
        this->_b->sputn (t, 10);
      }
    return *this;
  }
  basic_ostream &
  operator<< (float v)
  {
    return *this << double (v);
  }
  basic_ostream &
  operator<< (long double v)
  {
    return *this << double (v);
  }
  basic_ostream &
  operator<< (unsigned long v)
  {
    return number (v, false);
  }
  basic_ostream &
  operator<< (unsigned long long v)
  {
    return number (v, false);
  }
  basic_ostream &
  operator<< (unsigned int v)
  {
    return number (v, false);
  }
  basic_ostream &
  operator<< (unsigned short v)
  {
    return number (v, false);
  }
  basic_ostream &
  operator<< (long v)
  {
    return v < 0 ? number (0ul - (unsigned long)v, true) : number (v, false);
  }
  basic_ostream &
  operator<< (long long v)
  {
    return *this << long (v);
  }
  basic_ostream &
  operator<< (int v)
  {
    return *this << long (v);
  }
  basic_ostream &
  operator<< (short v)
  {
    return *this << long (v);
  }
  basic_ostream &
  operator<< (bool v)
  {
    if (this->_f & ios_base::boolalpha)
      return v ? pad ("true", 4) : pad ("false", 5);
    return *this << long (v);
  }
  basic_ostream &
  operator<< (const void *)
  {
    return pad ("0x0", 3);
  }
  basic_ostream &
  operator<< (nullptr_t)
  {
    return pad ("nullptr", 7);
  }
  basic_ostream &
  operator<< (basic_streambuf<C, T> *b)
  {
    if (b)
      {
        bool any = false;
        for (; b->_g < b->_s.size (); ++b->_g)
          {
            this->_b->sputc (b->_s[b->_g]);
            any = true;
          }
        if (!any)
          this->setstate (ios_base::failbit);
      }
    else
      this->setstate (ios_base::badbit);
    return *this;
  }
  basic_ostream &
  put (C c)
  {
    if (this->good ())
      this->_b->sputc (c);
    return *this;
  }
  basic_ostream &
  write (const C *s, streamsize n)
  {
    if (this->good ())
      this->_b->sputn (s, n);
    return *this;
  }
  basic_ostream &
  flush ()
  {
    return *this;
  }
  pos_type
  tellp ()
  {
    return pos_type (this->fail () ? -1 : streamoff (this->_b->_s.size ()));
  }
  basic_ostream &
  pad (const C *s, size_t n)
  {
    if (this->good ())
      {
        size_t w = this->_w > 0 && size_t (this->_w) > n ? size_t (this->_w) - n : 0;
        const bool l = (this->_f & ios_base::adjustfield) == ios_base::left;
        if (!l)
          for (size_t i = 0; i < w; ++i)
            this->_b->sputc (this->_fill);
        this->_b->sputn (s, n);
        if (l)
          for (size_t i = 0; i < w; ++i)
            this->_b->sputc (this->_fill);
        this->_w = 0;
      }
    return *this;
  }

private:
  basic_ostream &
  number (unsigned long v, bool neg)
  {
    C t[24];
    int n = 24;
    do
      {
        t[--n] = C ('0' + v % 10);
        v /= 10;
      }
    while (v);
    if (neg)
      t[--n] = '-';
    else if (this->_f & ios_base::showpos)
      t[--n] = '+';
    return pad (t + n, 24 - n);
  }
};

template <class C, class T>
basic_ostream<C, T> &
__ostream_insert (basic_ostream<C, T> &o, const C *s, streamsize n)
{
  return o.pad (s, n);
}
template <class T>
basic_ostream<char, T> &
operator<< (basic_ostream<char, T> &o, const char *s)
{
  if (!s)
    {
      o.setstate (ios_base::badbit);
      return o;
    }
  return o.pad (s, char_traits<char>::length (s));
}
template <class T>
basic_ostream<char, T> &
operator<< (basic_ostream<char, T> &o, char c)
{
  return o.pad (&c, 1);
}
template <class T>
basic_ostream<char, T> &
operator<< (basic_ostream<char, T> &o, signed char c)
{
  return o << char (c);
}
template <class T>
basic_ostream<char, T> &
operator<< (basic_ostream<char, T> &o, unsigned char c)
{
  return o << char (c);
}
template <class C, class T>
basic_ostream<C, T> &
endl (basic_ostream<C, T> &o)
{
  return o.put ('\n');
}
template <class C, class T>
basic_ostream<C, T> &
ends (basic_ostream<C, T> &o)
{
  return o.put ('\0');
}
template <class C, class T>
basic_ostream<C, T> &
flush (basic_ostream<C, T> &o)
{
  return o;
}
template <class S, class V,
          class = typename enable_if<!is_lvalue_reference<S>::value && is_base_of<ios_base, S>::value>::type>
S &&
operator<< (S &&s, const V &v)
{
  s << v;
  return static_cast<S &&> (s);
}

template <class C, class T> class basic_istream : virtual public basic_ios<C, T>
{
public:
  typedef basic_ios<C, T> ios_type;
  typedef typename T::int_type int_type;
  typedef typename T::pos_type pos_type;
  explicit basic_istream (basic_streambuf<C, T> *b) : _n (0) { this->init (b); }
  virtual ~basic_istream () {}
  class sentry
  {
  public:
    explicit sentry (basic_istream &i, bool noskip = false) : _ok (false)
    {
      if (i.good ())
        {
          if (!noskip && (i.flags () & ios_base::skipws))
            i.skip ();
          if (i.good ())
            _ok = true;
        }
      if (!_ok)
        i.setstate (ios_base::failbit);
    }
    explicit operator bool () const { return _ok; }

  private:
    bool _ok;
  };
  static bool
  space (C c)
  {
    return c == ' ' || (c >= '\t' && c <= '\r');
  }
  void
  skip ()
  {
    basic_streambuf<C, T> *b = this->_b;
    for (;;)
      {
        if (b->_g >= b->_s.size ())
          {
            this->setstate (ios_base::eofbit);
            return;
          }
        if (!space (b->_s[b->_g]))
          return;
        ++b->_g;
      }
  }
  basic_istream &
  operator>> (basic_istream &(*f) (basic_istream &))
  {
    return f (*this);
  }
  basic_istream &
  operator>> (ios_type &(*f) (ios_type &))
  {
    f (*this);
    return *this;
  }
  basic_istream &
  operator>> (ios_base &(*f) (ios_base &))
  {
    f (*this);
    return *this;
  }
  basic_istream &
  operator>> (double &v)
  {
    sentry s (*this);
    if (s)
      {
        basic_streambuf<C, T> *b = this->_b;
        if (peekc () == 27)
          {
            int k = 0;
            for (int i = 0; i < 8; ++i)
              {
                const char c = b->_s[b->_g + 1 + i];
                k = k * 16 + (c <= '9' ? c - '0' : c - 'a' + 10);
              }
            b->_g += 10;
            v = vs_tok_value (k);
            if (b->_g >= b->_s.size ())
              this->setstate (ios_base::eofbit);
            return *this;
          }
        basic_string<C, T> t;
        bool digits = false, point = false, ex = false, exd = false;
        C prev = 0;
        for (;;)
          {
            const int c = peekc ();
            if (c < 0)
              {
                this->setstate (ios_base::eofbit);
                break;
              }
            if (c >= '0' && c <= '9')
              {
                if (ex)
                  exd = true;
                else
                  digits = true;
              }
            else if (c == '+' || c == '-')
              {
                if (!(t.empty () || (ex && (prev == 'e' || prev == 'E'))))
                  break;
              }
            else if (c == '.')
              {
                if (point || ex)
                  break;
                point = true;
              }
            else if (c == 'e' || c == 'E')
              {
                if (ex || !digits)
                  break;
                ex = true;
              }
            else
              break;
            t.push_back (C (c));
            prev = C (c);
            ++b->_g;
          }
        if (!digits || (ex && !exd))
          {
            v = 0.0;
            this->setstate (ios_base::failbit);
          }
        else
          v = vs_text_double (t.data (), int (t.size ()));
      }
    return *this;
  }
  basic_istream &
  operator>> (float &v)
  {
    double d;
    *this >> d;
    v = float (d);
    return *this;
  }
  basic_istream &
  operator>> (unsigned long &v)
  {
    return integer (v, false, ~0ul);
  }
  basic_istream &
  operator>> (unsigned long long &v)
  {
    unsigned long x = v;
    integer (x, false, ~0ul);
    v = x;
    return *this;
  }
  basic_istream &
  operator>> (unsigned int &v)
  {
    unsigned long x = v;
    integer (x, false, 0xffffffffu);
    v = (unsigned int)x;
    return *this;
  }
  basic_istream &
  operator>> (unsigned short &v)
  {
    unsigned long x = v;
    integer (x, false, 0xffffu);
    v = (unsigned short)x;
    return *this;
  }
  basic_istream &
  operator>> (long &v)
  {
    unsigned long x = v;
    integer (x, true, 0x7fffffffffffffffu);
    v = long (x);
    return *this;
  }
  basic_istream &
  operator>> (long long &v)
  {
    unsigned long x = v;
    integer (x, true, 0x7fffffffffffffffu);
    v = long (x);
    return *this;
  }
  basic_istream &
  operator>> (int &v)
  {
    unsigned long x = v;
    integer (x, true, 0x7fffffffu);
    v = int (x);
    return *this;
  }
  basic_istream &
  operator>> (short &v)
  {
    unsigned long x = v;
    integer (x, true, 0x7fffu);
    v = short (x);
    return *this;
  }
  basic_istream &
  operator>> (bool &v)
  {
    sentry s (*this);
    if (s)
      {
        if (this->_f & ios_base::boolalpha)
          {
            // the longest match of "true" or "false"
            const char *w = peekc () == 't' ? "true" : "false";
            int i = 0;
            while (w[i] && peekc () == w[i])
              {
                ++this->_b->_g;
                ++i;
              }
            v = false;
            if (w[i])
              this->setstate (ios_base::failbit);
            else
              v = w[0] == 't';
            if (w[i] && peekc () < 0)
              this->setstate (ios_base::eofbit);
            return *this;
          }
        unsigned long x = 0;
        integer (x, true, 0x7fffffffffffffffu);
        if (this->fail ())
          {
            // zero on a failed conversion
            v = (x != 0);
            return *this;
          }
        v = (x != 0);
        if (x > 1)
          {
            v = true;
            this->setstate (ios_base::failbit);
          }
      }
    return *this;
  }
  streamsize
  gcount () const
  {
    return _n;
  }
  int_type
  get ()
  {
    _n = 0;
    sentry s (*this, true);
    if (!s)
      return T::eof ();
    int_type c = this->_b->sbumpc ();
    if (c == T::eof ())
      this->setstate (ios_base::eofbit | ios_base::failbit);
    else
      _n = 1;
    return c;
  }
  basic_istream &
  get (C &c)
  {
    int_type x = get ();
    if (x != T::eof ())
      c = T::to_char_type (x);
    return *this;
  }
  int_type
  peek ()
  {
    _n = 0;
    sentry s (*this, true);
    if (!s)
      return T::eof ();
    int_type c = this->_b->sgetc ();
    if (c == T::eof ())
      this->setstate (ios_base::eofbit);
    return c;
  }
  basic_istream &
  unget ()
  {
    this->clear (this->_st & ~ios_base::eofbit);
    if (this->good () && this->_b->sungetc () == T::eof ())
      this->setstate (ios_base::badbit);
    return *this;
  }
  basic_istream &
  putback (C c)
  {
    this->clear (this->_st & ~ios_base::eofbit);
    if (this->good () && this->_b->sputbackc (c) == T::eof ())
      this->setstate (ios_base::badbit);
    return *this;
  }
  basic_istream &
  ignore (streamsize n = 1, int_type d = T::eof ())
  {
    _n = 0;
    sentry s (*this, true);
    if (s)
      while (_n < n)
        {
          int_type c = this->_b->sbumpc ();
          if (c == T::eof ())
            {
              this->setstate (ios_base::eofbit);
              break;
            }
          ++_n;
          if (c == d)
            break;
        }
    return *this;
  }
  basic_istream &
  read (C *p, streamsize n)
  {
    _n = 0;
    sentry s (*this, true);
    if (s)
      {
        _n = this->_b->sgetn (p, n);
        if (_n != n)
          this->setstate (ios_base::eofbit | ios_base::failbit);
      }
    return *this;
  }
  basic_istream &
  getline (C *p, streamsize n, C d = '\n')
  {
    _n = 0;
    sentry s (*this, true);
    if (s)
      for (;;)
        {
          int_type c = this->_b->sgetc ();
          if (c == T::eof ())
            {
              this->setstate (ios_base::eofbit);
              break;
            }
          if (T::to_char_type (c) == d)
            {
              this->_b->sbumpc ();
              ++_n;
              break;
            }
          if (n <= 1)
            {
              this->setstate (ios_base::failbit);
              break;
            }
          *p++ = T::to_char_type (c);
          this->_b->sbumpc ();
          --n;
          ++_n;
        }
    if (n > 0)
      *p = 0;
    if (_n == 0)
      this->setstate (ios_base::failbit);
    return *this;
  }
  pos_type
  tellg ()
  {
    return pos_type (this->fail () ? -1 : streamoff (this->_b->_g));
  }
  basic_istream &
  seekg (pos_type p)
  {
    this->clear (this->_st & ~ios_base::eofbit);
    if (!this->fail ())
      this->_b->_g = size_t (streamoff (p));
    return *this;
  }
  basic_istream &
  seekg (streamoff o, ios_base::seekdir d)
  {
    this->clear (this->_st & ~ios_base::eofbit);
    if (!this->fail ())
      this->_b->_g = d == ios_base::beg   ? size_t (o)
                     : d == ios_base::cur ? this->_b->_g + size_t (o)
                                          : this->_b->_s.size () + size_t (o);
    return *this;
  }
  int
  sync ()
  {
    return 0;
  }
  int
  peekc ()
  {
    basic_streambuf<C, T> *b = this->_b;
    return b->_g < b->_s.size () ? int (static_cast<unsigned char> (b->_s[b->_g])) : -1;
  }
  streamsize _n;

private:
  basic_istream &
  integer (unsigned long &v, bool sgn, unsigned long mx)
  {
    sentry s (*this);
    if (s)
      {
        basic_streambuf<C, T> *b = this->_b;
        bool neg = false, any = false, ovf = false;
        int c = peekc ();
        if (c == '-' || c == '+')
          {
            neg = c == '-';
            ++b->_g;
          }
        unsigned long x = 0;
        const unsigned long lim = sgn && neg ? mx + 1 : mx;
        for (;;)
          {
            c = peekc ();
            if (c < 0)
              {
                this->setstate (ios_base::eofbit);
                break;
              }
            if (c < '0' || c > '9')
              break;
            const unsigned long dg = c - '0';
            if (x > (lim - dg) / 10)
              ovf = true;
            x = x * 10 + dg;
            any = true;
            ++b->_g;
          }
        if (!any)
          {
            v = 0;
            this->setstate (ios_base::failbit);
          }
        else if (ovf)
          {
            v = lim;
            if (sgn && neg)
              v = 0ul - lim;
            this->setstate (ios_base::failbit);
          }
        else
          v = neg ? 0ul - x : x;
      }
    return *this;
  }
};

template <class T>
basic_istream<char, T> &
operator>> (basic_istream<char, T> &i, char &c)
{
  typename basic_istream<char, T>::sentry s (i);
  if (s)
    {
      int x = i.peekc ();
      if (x < 0)
        i.setstate (ios_base::eofbit | ios_base::failbit);
      else
        {
          c = char (x);
          i.rdbuf ()->sbumpc ();
        }
    }
  return i;
}
template <class C, class T>
basic_istream<C, T> &
ws (basic_istream<C, T> &i)
{
  if (i.good ())
    i.skip ();
  return i;
}
template <class S, class V,
          class = typename enable_if<!is_lvalue_reference<S>::value && is_base_of<ios_base, S>::value>::type>
S &&
operator>> (S &&s, V &&v)
{
  s >> static_cast<V &&> (v);
  return static_cast<S &&> (s);
}

template <class C, class T>
class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T>
{
public:
  explicit basic_iostream (basic_streambuf<C, T> *b) : basic_istream<C, T> (b), basic_ostream<C, T> (b) {}
  virtual ~basic_iostream () {}
};

inline namespace __cxx11 {
template <class C, class T, class A> class basic_stringbuf : public basic_streambuf<C, T>
{
public:
  typedef basic_string<C, T, A> string_type;
  explicit basic_stringbuf (ios_base::openmode = ios_base::in | ios_base::out) {}
  explicit basic_stringbuf (const string_type &s, ios_base::openmode = ios_base::in | ios_base::out)
  {
    this->_s = s;
  }
  string_type
  str () const
  {
    return this->_s;
  }
  void
  str (const string_type &s)
  {
    this->_s = s;
    this->_g = 0;
  }
};

template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T>
{
public:
  typedef basic_string<C, T, A> string_type;
  explicit basic_istringstream (ios_base::openmode = ios_base::in) : basic_istream<C, T> (0)
  {
    this->init (&_sb);
  }
  explicit basic_istringstream (const string_type &s, ios_base::openmode = ios_base::in)
      : basic_istream<C, T> (0), _sb (s)
  {
    this->init (&_sb);
  }
  string_type
  str () const
  {
    return _sb.str ();
  }
  void
  str (const string_type &s)
  {
    _sb.str (s);
  }
  basic_stringbuf<C, T, A> *
  rdbuf () const
  {
    return const_cast<basic_stringbuf<C, T, A> *> (&_sb);
  }

private:
  basic_stringbuf<C, T, A> _sb;
};

template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T>
{
public:
  typedef basic_string<C, T, A> string_type;
  explicit basic_ostringstream (ios_base::openmode = ios_base::out) : basic_ostream<C, T> (0)
  {
    this->init (&_sb);
  }
  explicit basic_ostringstream (const string_type &s, ios_base::openmode = ios_base::out)
      : basic_ostream<C, T> (0), _sb (s)
  {
    this->init (&_sb);
  }
  string_type
  str () const
  {
    return _sb.str ();
  }
  void
  str (const string_type &s)
  {
    _sb.str (s);
  }
  basic_stringbuf<C, T, A> *
  rdbuf () const
  {
    return const_cast<basic_stringbuf<C, T, A> *> (&_sb);
  }

private:
  basic_stringbuf<C, T, A> _sb;
};

template <class C, class T, class A> class basic_stringstream : public basic_iostream<C, T>
{
public:
  typedef basic_string<C, T, A> string_type;
  explicit basic_stringstream (ios_base::openmode = ios_base::in | ios_base::out) : basic_iostream<C, T> (0)
  {
    this->init (&_sb);
  }
  explicit basic_stringstream (const string_type &s, ios_base::openmode = ios_base::in | ios_base::out)
      : basic_iostream<C, T> (0), _sb (s)
  {
    this->init (&_sb);
  }
  string_type
  str () const
  {
    return _sb.str ();
  }
  void
  str (const string_type &s)
  {
    _sb.str (s);
  }
  basic_stringbuf<C, T, A> *
  rdbuf () const
  {
    return const_cast<basic_stringbuf<C, T, A> *> (&_sb);
  }

private:
  basic_stringbuf<C, T, A> _sb;
};
}

// files are strings kept by the model (support.cpp)
string *vs_file (const string &name, bool create);

template <class C, class T> class basic_filebuf : public basic_streambuf<C, T>
{
public:
  basic_filebuf () : _o (0), _w (false) {}
  virtual ~basic_filebuf () { close (); }
  bool
  is_open () const
  {
    return _o != 0;
  }
  basic_filebuf *
  open (const string &name, ios_base::openmode m)
  {
    if (_o)
      return 0;
    const bool w = (m & (ios_base::out | ios_base::app)) != 0;
    string *f = vs_file (name, w && (!(m & ios_base::in) || (m & ios_base::trunc)));
    if (!f)
      return 0;
    _o = f;
    _w = w;
    this->_g = 0;
    if (w && !(m & (ios_base::app | ios_base::in)))
      f->clear ();
    this->_s = *f;
    return this;
  }
  basic_filebuf *
  close ()
  {
    if (!_o)
      return 0;
    if (_w)
      *_o = this->_s;
    _o = 0;
    return this;
  }

protected:
  virtual void
  dirty ()
  {
    if (_o && _w)
      *_o = this->_s;
  }
  string *_o;
  bool _w;
};

template <class C, class T> class basic_ifstream : public basic_istream<C, T>
{
public:
  basic_ifstream () : basic_istream<C, T> (0) { this->init (&_fb); }
  explicit basic_ifstream (const string &n, ios_base::openmode m = ios_base::in) : basic_istream<C, T> (0)
  {
    this->init (&_fb);
    open (n, m);
  }
  explicit basic_ifstream (const char *n, ios_base::openmode m = ios_base::in) : basic_istream<C, T> (0)
  {
    this->init (&_fb);
    open (n, m);
  }
  void
  open (const string &n, ios_base::openmode m = ios_base::in)
  {
    if (!_fb.open (n, m | ios_base::in))
      this->setstate (ios_base::failbit);
    else
      this->clear ();
  }
  bool
  is_open () const
  {
    return _fb.is_open ();
  }
  void
  close ()
  {
    if (!_fb.close ())
      this->setstate (ios_base::failbit);
  }
  basic_filebuf<C, T> *
  rdbuf () const
  {
    return const_cast<basic_filebuf<C, T> *> (&_fb);
  }

private:
  basic_filebuf<C, T> _fb;
};

template <class C, class T> class basic_ofstream : public basic_ostream<C, T>
{
public:
  basic_ofstream () : basic_ostream<C, T> (0) { this->init (&_fb); }
  explicit basic_ofstream (const string &n, ios_base::openmode m = ios_base::out) : basic_ostream<C, T> (0)
  {
    this->init (&_fb);
    open (n, m);
  }
  explicit basic_ofstream (const char *n, ios_base::openmode m = ios_base::out) : basic_ostream<C, T> (0)
  {
    this->init (&_fb);
    open (n, m);
  }
  void
  open (const string &n, ios_base::openmode m = ios_base::out)
  {
    if (!_fb.open (n, m | ios_base::out))
      this->setstate (ios_base::failbit);
    else
      this->clear ();
  }
  bool
  is_open () const
  {
    return _fb.is_open ();
  }
  void
  close ()
  {
    if (!_fb.close ())
      this->setstate (ios_base::failbit);
  }
  basic_filebuf<C, T> *
  rdbuf () const
  {
    return const_cast<basic_filebuf<C, T> *> (&_fb);
  }

private:
  basic_filebuf<C, T> _fb;
};

template <class C, class T> class basic_fstream : public basic_iostream<C, T>
{
public:
  basic_fstream () : basic_iostream<C, T> (0) { this->init (&_fb); }
  explicit basic_fstream (const string &n, ios_base::openmode m = ios_base::in | ios_base::out)
      : basic_iostream<C, T> (0)
  {
    this->init (&_fb);
    open (n, m);
  }
  void
  open (const string &n, ios_base::openmode m = ios_base::in | ios_base::out)
  {
    if (!_fb.open (n, m))
      this->setstate (ios_base::failbit);
    else
      this->clear ();
  }
  bool
  is_open () const
  {
    return _fb.is_open ();
  }
  void
  close ()
  {
    if (!_fb.close ())
      this->setstate (ios_base::failbit);
  }

private:
  basic_filebuf<C, T> _fb;
};

// manipulators
#define VS_MANIP(n, f, m)                                                                                              \
  inline ios_base &n (ios_base &b)                                                                                     \
  {                                                                                                                    \
    b.setf (ios_base::f, ios_base::m);                                                                                 \
    return b;                                                                                                          \
  }
VS_MANIP (dec, dec, basefield)
VS_MANIP (hex, hex, basefield)
VS_MANIP (oct, oct, basefield)
VS_MANIP (left, left, adjustfield)
VS_MANIP (right, right, adjustfield)
VS_MANIP (internal, internal, adjustfield)
VS_MANIP (fixed, fixed, floatfield)
VS_MANIP (scientific, scientific, floatfield)
#undef VS_MANIP
#define VS_MANIP2(n)                                                                                                   \
  inline ios_base &n (ios_base &b)                                                                                     \
  {                                                                                                                    \
    b.setf (ios_base::n);                                                                                              \
    return b;                                                                                                          \
  }                                                                                                                    \
  inline ios_base &no##n (ios_base &b)                                                                                 \
  {                                                                                                                    \
    b.unsetf (ios_base::n);                                                                                            \
    return b;                                                                                                          \
  }
VS_MANIP2 (boolalpha)
VS_MANIP2 (showbase)
VS_MANIP2 (showpoint)
VS_MANIP2 (showpos)
VS_MANIP2 (skipws)
VS_MANIP2 (unitbuf)
VS_MANIP2 (uppercase)
#undef VS_MANIP2
inline ios_base &
defaultfloat (ios_base &b)
{
  b.unsetf (ios_base::floatfield);
  return b;
}

struct _Setw
{
  int n;
};
struct _Setprecision
{
  int n;
};
struct _Setflags
{
  ios_base::fmtflags f;
  bool on;
};
template <class C> struct _Setfill
{
  C c;
};
inline _Setw
setw (int n)
{
  return { n };
}
inline _Setprecision
setprecision (int n)
{
  return { n };
}
inline _Setflags
setiosflags (ios_base::fmtflags f)
{
  return { f, true };
}
inline _Setflags
resetiosflags (ios_base::fmtflags f)
{
  return { f, false };
}
template <class C>
inline _Setfill<C>
setfill (C c)
{
  return { c };
}
template <class C, class T>
basic_ostream<C, T> &
operator<< (basic_ostream<C, T> &o, _Setw w)
{
  o.width (w.n);
  return o;
}
template <class C, class T>
basic_istream<C, T> &
operator>> (basic_istream<C, T> &o, _Setw w)
{
  o.width (w.n);
  return o;
}
template <class C, class T>
basic_ostream<C, T> &
operator<< (basic_ostream<C, T> &o, _Setprecision w)
{
  o.precision (w.n);
  return o;
}
template <class C, class T>
basic_ostream<C, T> &
operator<< (basic_ostream<C, T> &o, _Setflags w)
{
  if (w.on)
    o.setf (w.f);
  else
    o.unsetf (w.f);
  return o;
}
template <class C, class T>
basic_ostream<C, T> &
operator<< (basic_ostream<C, T> &o, _Setfill<C> w)
{
  o.fill (w.c);
  return o;
}

extern istream cin;
extern ostream cout;
extern ostream cerr;
extern ostream clog;
}
#endif
