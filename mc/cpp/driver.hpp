// Line driven driver around generated C++ full codecs.
//
// request:  <op> <type index> <endianness l|b|n> <hex bytes or ->
// reply:    one line per request, flushed, so that the request that kills the
//           process is the first one without a reply.
//
// Per type only thin calls into the public API are instantiated (compile time matters),
// everything else lives in driver.cpp.
#include <stddef.h>
#include <stdint.h>
#include <string>
#include <vector>
#include <prophy/endianness.hpp>

namespace verif
{

enum action { make, kill, dec, encp, encv, size, print, over, fixed };

struct call
{
    action what;
    char e;
    const uint8_t* in;
    size_t n;
    uint8_t* out;
    std::vector<uint8_t>* vec;
    std::string* text;
};

typedef size_t (*handler)(void*&, call&);

template <typename T> struct overfill { static bool apply(T&) { return false; } };

template <typename T>
size_t handle(void*& p, call& c)
{
    if (c.what == make) { p = new T; return 0; }
    T& x = *static_cast<T*>(p);
    switch (c.what)
    {
        case make: break;
        case kill: delete &x; return 0;
        case dec:
            if (c.e == 'l') return x.template decode<prophy::little>(c.in, c.n);
            if (c.e == 'b') return x.template decode<prophy::big>(c.in, c.n);
            return x.decode(c.in, c.n);
        case encp:
            if (c.e == 'l') return x.template encode<prophy::little>(c.out);
            if (c.e == 'b') return x.template encode<prophy::big>(c.out);
            return x.encode(c.out);
        case encv:
            if (c.e == 'l') { *c.vec = x.template encode<prophy::little>(); return 0; }
            if (c.e == 'b') { *c.vec = x.template encode<prophy::big>(); return 0; }
            *c.vec = x.encode();
            return 0;
        case size: return x.get_byte_size();
        case print: *c.text = x.print(); return 0;
        case over: return overfill<T>::apply(x);
        case fixed: return size_t(T::encoded_byte_size);
    }
    return 0;
}

int run(const handler* handlers, size_t count);

} // namespace verif
