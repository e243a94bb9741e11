"""C09: the generated raw C++ swap turns a foreign-endian message into a native one in place."""
import os

from .. import core, cppside, pyside, ref, schemas, space
from ..pyside import hexs
from ..ref import Struct

LIB = space.library()
GUARD = 64
MAIN = """
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <string>
#include <sys/mman.h>
#include "schema.pp.cpp"
template <class T> static void* apply(void* p) { return prophy::swap(static_cast<T*>(p)); }
typedef void* (*function)(void*);
static const function functions[] = { %s };
static unsigned char nibble(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
// a message between guards; the guard bytes differ from their neighbours, so that swapping them shows
static const size_t page = 4096;
// pages that cannot be touched on both sides: whatever runs away ends at once, with the message it started from
static unsigned char* area(size_t size)
{
    unsigned char* block = static_cast<unsigned char*>(
        mmap(0, size + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (block == MAP_FAILED || mprotect(block + page, size, PROT_READ | PROT_WRITE)) std::exit(3);
    return block + page;
}
int main()
{
    const size_t guard = %d, few = 4 * page, many = 80 * page;
    unsigned char* const areas[] = { area(few), area(many) };
    std::string line;
    while (std::getline(std::cin, line))
    {
        size_t space = line.find(' ');
        size_t index = std::atoi(line.substr(0, space).c_str());
        std::string hex = line.substr(space + 1);
        size_t n = hex.size() / 2;
        if (n + 2 * guard > many) return 3;
        const size_t total = n + 2 * guard > few ? many : few;
        unsigned char* const buffer = areas[total == many];
        for (size_t i = 0; i < total; ++i) buffer[i] = (unsigned char)(i * 37 + 11);
        for (size_t i = 0; i < n; ++i) buffer[guard + i] = nibble(hex[2 * i]) * 16 + nibble(hex[2 * i + 1]);
        void* end = functions[index](buffer + guard);
        long broken = -1;
        for (size_t i = 0; i < total; ++i)
            if ((i < guard || i >= guard + n) && buffer[i] != (unsigned char)(i * 37 + 11)) { broken = i; break; }
        std::printf("%%ld %%ld ", long(static_cast<unsigned char*>(end) - buffer) - long(guard),
            broken < 0 ? -1000000 : broken - long(guard));
        for (size_t i = 0; i < n; ++i) std::printf("%%02x", buffer[guard + i]);
        std::printf("\\n");
        std::fflush(stdout);
    }
}
"""
OUTSIDE = -1000000
PART_END = "a part that ends unaligned and is followed by a less aligned part"
GREEDY_ADDRESS = "the address of a greedy tail less aligned than its struct"


def work(group):
    res = core.Result()
    explore(res, group)
    return res


def explore(res, group):
    with core.Scratch() as tmp:
        try:
            with core.Watchdog(300):
                pyside.compile_text(schemas.group_text(LIB, group), tmp, outputs=("cpp",))
            with open(os.path.join(tmp, "main.cpp"), "w") as f:
                f.write(MAIN % (", ".join("&apply< ::%s>" % c.top.name for c in group), GUARD))
            exe = os.path.join(tmp, "main")
            cppside.compiler(cppside.FLAGS + ["-I" + cppside.INCLUDE, "-I" + tmp, "main.cpp", "-o", exe], tmp)
        except (Exception, core.Hang) as e:
            if len(group) == 1:
                res.violation("build:" + group[0].text, "raw C++ of a valid schema is not usable: %s: %s" % (
                    type(e).__name__, str(e)[:500]), case=group[0].name, schema=schemas.group_text(LIB, group))
            elif len(res.violations) < 6:
                half = len(group) // 2
                explore(res, group[:half])
                explore(res, group[half:])
            return
        requests, context = [], []
        for i, c in enumerate(group):
            for v in space.values(c.top):
                foreign = ref.encode(c.top, v, ">")
                if not foreign:
                    continue
                requests.append("%d %s" % (i, foreign.hex()))
                context.append((c, v, foreign))
        bad = {}
        for (c, v, foreign), reply in zip(context, cppside.converse(exe, requests)):
            res.states += 1
            res.transitions += 1
            res.traces += 1
            key, problem = judge(res, c, v, foreign, reply)
            if key:
                if bad.setdefault(key, 0) < 1:
                    bad[key] += 1
                    res.violation(key, "%s %r: %s" % (c.text, v, problem), case=c.name, schema=c.text,
                                  foreign=hexs(foreign), reply=reply)
                res.outcomes["known: " + key] += 1
            elif problem and bad.setdefault(c.name, 0) < 2:
                bad[c.name] += 1
                res.violation("swap:%s" % c.text, "%r: %s" % (v, problem), case=c.name, schema=c.text,
                              foreign=hexs(foreign), reply=reply)
            elif res.traces % 20000 == 1:
                res.sample("%s | %s -> %s" % (c.text, hexs(foreign), reply))


def up(offset, align):
    return offset + ref.pad_to(offset, align)


def misplaced(t, v):
    """Offset up to which a message can be told apart from the known finding PART_END: the end of the first part,
    not counting the one before the first cut, that ends unaligned and is followed by a less aligned part.
    None if the message holds no such part."""
    s = t.base()
    if not isinstance(s, Struct):
        return None
    spans, _ = ref.field_spans(s, v)
    where = {name: (start, end) for name, start, end in spans}
    blocks = s.blocks()
    for i, block in enumerate(blocks):
        for f in block:
            if f.role == "counter" or f.member.type.stiffness == ref.FIXED:
                continue
            inner = v[f.member.name] if f.member.is_array else [v[f.member.name]]
            if any(misplaced(f.member.type, x) is not None for x in inner):
                return where[f.name][0]
        if 0 < i < len(blocks) - 1:
            end = where[block[-1].name][1]
            mine, following = (max(f.align for f in b) for b in blocks[i:i + 2])
            if up(up(end, mine), following) != up(end, following):
                return end
    return None


def judge(res, c, v, foreign, reply):
    """(key of a known finding, what is wrong)"""
    if reply == "SKIPPED":
        return None, None
    limit = misplaced(c.top, v)
    key = None if limit is None else PART_END
    if reply.startswith("CRASH"):
        return key, reply
    end, broken, data = reply.split(" ")
    end, broken, data = int(end), int(broken), bytes.fromhex(data)
    native = ref.encode(c.top, v, "<")
    upto, want_end = len(native), len(native)
    unlimited = c.top.stiffness == ref.UNLIMITED
    if unlimited:
        # only the members before the unlimited one, whose address is returned
        spans, _ = ref.field_spans(c.top, v)
        upto = want_end = spans[-1][1]
    res.outcomes["%s end %d" % (ref.STIFFNESS_NAMES[c.top.stiffness], want_end)] += 1
    if key and data[:limit] != native[:limit]:
        return None, "%s became %s, expected %s" % (hexs(foreign[:limit]), hexs(data[:limit]), hexs(native[:limit]))
    if broken != OUTSIDE:
        return key, "the byte at offset %d, outside the %d bytes of the message, was changed" % (broken, len(foreign))
    if data[:upto] != native[:upto]:
        return key, "%s became %s, expected %s" % (hexs(foreign[:upto]), hexs(data[:upto]), hexs(native[:upto]))
    if end != want_end:
        if unlimited and not key:
            rounded = up(up(want_end, max(f.align for f in c.top.blocks()[-1])), c.top.align)
            key = GREEDY_ADDRESS if end == rounded else None
        return key, "returned offset %d instead of %d (%s)" % (end, want_end, hexs(foreign))
    return None, None


def check(ctx):
    fams = [space.singles, space.core_pairs, space.wrapped_singles, space.tiny_triples, space.shared_sizer_cases,
            space.wrapped_tiny_pairs, space.large_cases]
    if ctx.thorough:
        fams += [space.full_pairs, space.core_triples, space.tiny_quads, space.wrapped_core_pairs]
    cases = ctx.pick(space.gather(LIB, *fams))
    res = core.parallel(work, core.chunks(cases, 150), ctx.seed)
    res.extra["schemas"] = len(cases)
    return res


def main():
    return core.run("C09", check, assumptions=["bounded: the schema and value space of mc/space.py",
                                               "little-endian host, buffers aligned to the alignment of the message"])
