#include "driver.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <exception>
#include <iostream>
#include <new>

namespace
{
size_t requested = 0;     // bytes requested from the heap since reset
bool counting = false;

void* checked_alloc(size_t n)
{
    if (counting) { requested += n; }
    if (n > (size_t(1) << 30)) { throw std::bad_alloc(); }
    void* p = malloc(n ? n : 1);
    if (!p) { throw std::bad_alloc(); }
    return p;
}

int nibble(char c)
{
    return c <= '9' ? c - '0' : c - 'a' + 10;
}

void put_hex(std::string& out, const uint8_t* p, size_t n)
{
    static const char digits[] = "0123456789abcdef";
    if (!n) { out += '-'; }
    for (size_t i = 0; i < n; ++i)
    {
        out += digits[p[i] >> 4];
        out += digits[p[i] & 15];
    }
}

void put_num(std::string& out, long long x)
{
    char buf[32];
    snprintf(buf, sizeof buf, "%lld", x);
    out += buf;
}

struct object
{
    object(verif::handler h_): h(h_), p(0) { c.e = 'n'; c.in = 0; c.n = 0; c.out = 0; c.vec = 0; c.text = 0; act(verif::make); }
    ~object() { act(verif::kill); }
    size_t act(verif::action a) { c.what = a; return h(p, c); }

    std::vector<uint8_t> vec(char e)
    {
        std::vector<uint8_t> v;
        c.e = e;
        c.vec = &v;
        act(verif::encv);
        return v;
    }

    void put_vec(std::string& out, char e)
    {
        std::vector<uint8_t> v = vec(e);
        put_hex(out, v.data(), v.size());
    }

    // get_byte_size, bytes written through the pointer API into an exact heap block, length of
    // the returned vector, 1 if the two outputs are the same
    void put_sizes(std::string& out, char e)
    {
        size_t n = act(verif::size);
        uint8_t* a = static_cast<uint8_t*>(malloc(n ? n : 1));
        memset(a, 0, n);
        c.e = e;
        c.out = a;
        size_t written = act(verif::encp);
        std::vector<uint8_t> v = vec(e);
        put_num(out, n); out += ' ';
        put_num(out, written); out += ' ';
        put_num(out, v.size()); out += ' ';
        out += (v.size() == n && (n == 0 || memcmp(v.data(), a, n) == 0)) ? '1' : '0';
        free(a);
        out += ' ';
    }

    verif::handler h;
    void* p;
    verif::call c;
};

void answer(verif::handler h, char op, char e, const uint8_t* data, size_t size, std::string& out)
{
    object x(h);
    if (op == 'C')
    {
        // statics and a default constructed message
        put_num(out, int(x.act(verif::fixed))); out += ' ';
        x.put_sizes(out, e);
        x.put_vec(out, e);
        return;
    }
    if (op == 'D')
    {
        // a history: the message held something else before (same bytes, decoded twice)
        x.c.e = e; x.c.in = data; x.c.n = size;
        x.act(verif::dec);
    }
    x.c.e = e;
    x.c.in = data;
    x.c.n = size;
    requested = 0;
    counting = true;
    bool ok = false;
    try
    {
        ok = x.act(verif::dec);
    }
    catch (const std::exception& ex)
    {
        counting = false;
        out += "throw ";
        out += ex.what();
        return;
    }
    counting = false;
    size_t asked = requested;
    out += ok ? "1 " : "0 ";
    put_num(out, asked);
    out += ' ';
    if (!ok) { return; }
    if (op == 'R' || op == 'D')
    {
        x.put_sizes(out, e);
        x.put_vec(out, e);
    }
    else if (op == 'X')
    {
        x.put_vec(out, 'l'); out += ' ';
        x.put_vec(out, 'b'); out += ' ';
        x.put_vec(out, 'n');
    }
    else if (op == 'P')
    {
        std::string s;
        x.c.text = &s;
        x.act(verif::print);
        put_hex(out, reinterpret_cast<const uint8_t*>(s.data()), s.size());
    }
    else if (op == 'O')
    {
        if (!x.act(verif::over)) { out += "none"; return; }
        x.put_sizes(out, e);
        x.put_vec(out, e);
    }
}

} // namespace

void* operator new(size_t n) { return checked_alloc(n); }
void* operator new[](size_t n) { return checked_alloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

int verif::run(const handler* handlers, size_t count)
{
    std::string line, out;
    std::ios::sync_with_stdio(false);
    while (std::getline(std::cin, line))
    {
        char op = line[0];
        char* rest = 0;
        unsigned long index = strtoul(line.c_str() + 2, &rest, 10);
        char e = rest[1];
        const char* hex = rest + 3;
        size_t size = *hex == '-' ? 0 : strlen(hex) / 2;
        // an exact heap block: one byte beyond it is poisoned
        uint8_t* data = static_cast<uint8_t*>(malloc(size));
        for (size_t i = 0; i < size; ++i)
        {
            data[i] = uint8_t(nibble(hex[2 * i]) << 4 | nibble(hex[2 * i + 1]));
        }
        out.clear();
        if (index < count) { answer(handlers[index], op, e, data, size, out); }
        free(data);
        out += '\n';
        fwrite(out.data(), 1, out.size(), stdout);
        fflush(stdout);
    }
    return 0;
}
