// The priority queue: sequences of operations over symbolic costs.
//   p    insert the next element      o  remove the first element
//   d<i> decrease the cost of i       i<i> increase the cost of i
//   P    insert an element again that was removed
// (letters a-z name elements 0-25)
#include "sym.h"
#include <clingo.hh>
#include <clingo-dl/util.hh>
#include <vector>

namespace {

struct Costs {
    std::vector<int> cost;
    std::vector<bool> rel;
    std::vector<uint32_t> off;
    uint32_t &offset(uint32_t i) { return off[i]; }
    bool less(uint32_t a, uint32_t b) {
        if (cost[a] != cost[b]) return cost[a] < cost[b];
        return rel[a] && !rel[b];
    }
};

// first string: initial costs (s symbolic, digits concrete), then operations
struct Script {
    char const *costs, *ops;
};
Script const scripts[] = {
    {"ssssss", "ppppppoooooo"},
    {"sssss", "pppppdddd"},
    {"sssss", "pppppdaoddooo"},
    {"sssss", "pppppiaibooooo"},
    {"ssss", "ppdbpodcpooo"},
    {"sssssss", "pppppppo"},
    {"s2s4s678", "ppppppppoooooooo"},
    {"11s45s78s", "pppppppppooooooooo"},
    {"123456789s", "ppppppppppdjoooooooooo"},
    {"123456789ss", "pppppppppppdedkoooo"},
    {"55555555555", "pppppppppppdadkdfooooooooooo"},
    {"987654321", "pppppppppdidfoooooooo"},
    {"12345678", "ppppppppiaiboooooooo"},
    {"1234567891234567s", "pppppppppppppppppdqdpoooo"},
    {"1234567891234567s", "pppppppppppppppppiaoooooo"},
    {"1111111111111111ss", "ppppppppppppppppppoooooo"},
    {"ss", "ppoopPoo"},
    {"s1s", "pppPooopPPooo"},
    {"ssss", "popopopo"},
    {"sss", "ppodcopo"},
    {"sssss", "pppppooooo"},
    {"sssssss", "pppppppooooooo"},
    {"ssssss", "ppppppdfdeoooooo"},
    {"ssssss", "ppppppiaidoooooo"},
    {"1s2s3s4s5", "pppppppppdidboooooooooo"},
    {"123456789123456789123s", "ppppppppppppppppppppppdvdrdaooooooo"},
};
constexpr int QUICK = 21, ALL = sizeof scripts / sizeof *scripts;

} // namespace

int sym_variants(int tier) { return tier ? ALL * 2 : QUICK * 2; }

void sym_main(int variant) {
    bool rel = variant % 2;
    Script s = scripts[variant / 2];
    Costs m;
    ClingoDL::Heap<4> h;
    std::vector<bool> in;
    for (char const *c = s.costs; *c; ++c) {
        m.cost.push_back(*c == 's' ? sym_int("cost", -1000, 1000) : *c - '0');
        m.rel.push_back(rel && m.cost.size() % 3 == 0);
        m.off.push_back(7777);
        in.push_back(false);
    }
    size_t n = m.cost.size(), size = 0;
    auto positions = [&] {
        if (h.size() != size) sym_fail("wrong size");
        if (h.empty() != (size == 0)) sym_fail("wrong emptiness");
        std::vector<bool> seen(size);
        for (size_t i = 0; i < n; ++i)
            if (in[i]) {
                if (m.off[i] >= size || seen[m.off[i]]) sym_fail("element has a wrong position");
                seen[m.off[i]] = true;
            }
    };
    uint32_t next = 0, last = 0;
    for (char const *c = s.ops; *c; ++c) {
        if (*c == 'p') {
            if (next >= n) continue;
            in[next] = true;
            ++size;
            h.push(m, next++);
        } else if (*c == 'P') {
            if (in[last] || next == 0) continue;
            in[last] = true;
            m.cost[last] = sym_int("again", -1000, 1000);
            ++size;
            h.push(m, last);
        } else if (*c == 'o') {
            if (size == 0) continue;
            auto x = h.pop(m);
            if (x >= n || !in[x]) sym_fail("element removed that is not in the queue");
            in[x] = false;
            last = x;
            --size;
            bool ok = true;
            for (size_t i = 0; i < n; ++i)
                if (in[i]) ok = ok & (rel && m.rel[i] && !m.rel[x] ? m.cost[x] < m.cost[i] : m.cost[x] <= m.cost[i]);
            sym_assert(ok, "element removed is not a cheapest one");
            sym_reach("pop");
        } else {
            // the element following in the script, or the first in the queue
            bool dec = *c == 'd';
            size_t e = 0;
            if (c[1] >= 'a' && c[1] <= 'z' && c[1] != 'd' && c[1] != 'o' && c[1] != 'p') e = *++c - 'a';
            else
                while (e < n && !in[e]) ++e;
            if (e >= n || !in[e]) continue;
            int k = sym_int(dec ? "decrease" : "increase", 0, 1000);
            if (dec) {
                m.cost[e] -= k;
                h.decrease(m, e);
            } else {
                m.cost[e] += k;
                h.increase(m, e);
            }
            sym_reach(dec ? "decrease" : "increase");
        }
        positions();
    }
    // everything comes out
    while (size > 0) {
        auto x = h.pop(m);
        if (x >= n || !in[x]) sym_fail("element removed that is not in the queue");
        in[x] = false;
        --size;
        bool ok = true;
        for (size_t i = 0; i < n; ++i)
            if (in[i]) ok = ok & (m.cost[x] <= m.cost[i]);
        sym_assert(ok, "element removed is not a cheapest one");
        positions();
    }
}
