// C06: a pool never hands out an object that is in use, nor refuses a free one
#include "pbt.hpp"

#include <ctime>

#include "spine/structure/pool.hpp"

using namespace pbt;
using spn::structure::Pool;

namespace {

struct Object {
    int id;
    Object(int id) : id(id) {}
    Object(Object&& o) : id(o.id) { o.id = -1; }
};
using P = std::shared_ptr<Object>;

struct World {
    std::unique_ptr<Pool<Object>> pool;
    size_t n = 0;
    std::map<int, Object*> where; // objects in the pool by number; address if known
    std::vector<P> mine;
    std::multiset<int> holds; // number of pointers we hold by object

    void populate(Ctx& c, size_t size) {
        n = size;
        pool = std::make_unique<Pool<Object>>(n);
        for (size_t i = 0; i < n; ++i) {
            CHECK_EQ(pool->size(), i, "size while populating");
            CHECK_EQ(pool->is_fully_populated(), false, "fully populated while populating");
            const auto how = n > 1000 ? 0 : c.draw(2);
            if (how == 0) {
                auto p = std::make_shared<Object>(int(i));
                where[i] = p.get();
                pool->populate(p);
            } else if (how == 1) {
                auto p = new Object(int(i));
                where[i] = p;
                pool->populate(p);
            } else {
                pool->populate(Object(int(i)));
                where[i] = nullptr;
            }
        }
        CHECK_EQ(pool->size(), n, "size");
        CHECK_EQ(pool->is_fully_populated(), true, "fully populated");
    }
    size_t distinct_held() const {
        size_t k = 0;
        for (auto it = holds.begin(); it != holds.end(); it = holds.upper_bound(*it))
            ++k;
        return k;
    }
    bool acquire(size_t held) {
        auto p = pool->acquire();
        CHECK_EQ(p != nullptr, held < n, "acquire yields an object with " << held << " of " << n << " held");
        if (!p) return false;
        CHECK(p->id >= 0 && where.count(p->id), "an object that was never put in: " << p->id);
        CHECK(!holds.count(p->id), "object " << p->id << " is handed out although it is in use");
        auto& w = where[p->id];
        CHECK(w == nullptr || w == p.get(), "object " << p->id << " is not the one that was put in");
        w = p.get();
        holds.insert(p->id);
        mine.push_back(std::move(p));
        return true;
    }
    void release(size_t k) {
        holds.erase(holds.find(mine[k]->id));
        std::swap(mine[k], mine.back());
        mine.pop_back();
    }
};

PROP(histories, 300) {
    World w;
    w.populate(c, c.draw(c.chance(1, 8) ? 40 : 7));
    NOTE(c, "pool of " << w.n);
    c.scale();
    const auto ops = c.swarm(7);
    int acquired = 0, released = 0;
    bool exhausted = false, copies = false;
    while (c.more()) {
        switch (c.weighted(ops)) {
        case 0:
        case 1:
            NOTE(c, "acquire");
            if (w.acquire(w.distinct_held()))
                ++acquired;
            else
                exhausted = true;
            break;
        case 2:
        case 3:
            if (w.mine.empty()) break;
            {
                const auto k = c.below(w.mine.size());
                NOTE(c, "release " << w.mine[k]->id);
                w.release(k);
                ++released;
            }
            break;
        case 4: { // hold it twice
            if (w.mine.empty()) break;
            const auto k = c.below(w.mine.size());
            NOTE(c, "share " << w.mine[k]->id);
            const auto p = w.mine[k];
            w.holds.insert(p->id);
            w.mine.push_back(p);
            copies = true;
            break;
        }
        case 5: // acquire all that is left
            NOTE(c, "acquire all");
            while (w.acquire(w.distinct_held()))
                ++acquired;
            exhausted = true;
            break;
        case 6:
            if (c.coin()) {
                NOTE(c, "release all");
                while (!w.mine.empty())
                    w.release(c.below(w.mine.size())), ++released;
            } else {
                NOTE(c, "move the pool");
                if (c.coin())
                    w.pool = std::make_unique<Pool<Object>>(std::move(*w.pool));
                else {
                    auto p = std::make_unique<Pool<Object>>(c.draw(2));
                    *p = std::move(*w.pool);
                    w.pool = std::move(p);
                }
            }
            break;
        }
        CHECK_EQ(w.pool->size(), w.n, "size");
    }
    // in the end everything that is not held can be had
    while (w.acquire(w.distinct_held()))
        ;
    CHECK_EQ(w.distinct_held(), w.n, "objects held in the end");
    // use after the pool is gone
    const bool gone = c.coin();
    if (gone) {
        w.pool.reset();
        for (auto& p : w.mine)
            CHECK(w.where[p->id] == p.get(), "an object that is held was destroyed with the pool");
    } else { // depopulate yields each object once
        std::set<int> ids;
        w.mine.clear();
        while (w.pool->size() > 0) {
            const auto p = w.pool->depopulate();
            CHECK(p && ids.insert(p->id).second, "depopulate yields an object twice");
        }
        CHECK_EQ(ids.size(), w.n, "depopulated");
    }
    if (acquired >= 3 && released >= 1) c.nontrivial();
    if (exhausted) c.label("exhausted");
    if (copies) c.label("shared holds");
}

PROP(large, 1) {
    World w;
    w.populate(c, c.pick({257, 65534, 65535, 65536, 65537, 70000}));
    NOTE(c, "pool of " << w.n);
    c.label("large pool");
    const auto started = std::clock();
    for (size_t i = 0; i < w.n; ++i) {
        w.acquire(i);
        if (i % 256 == 0 && std::clock() - started > 6 * CLOCKS_PER_SEC) { // a pool may be slow, and is not asked for more
            c.label("slow pool");
            return;
        }
    }
    if (c.coin()) w.acquire(w.n); // otherwise it goes on from its end
    // release some, which are all that can be acquired again
    const auto k = 1 + c.draw(20);
    for (size_t i = 0; i < k; ++i)
        w.release(c.coin() ? c.below(w.mine.size()) : i == 0 ? w.mine.size() - 1 : 0);
    for (size_t i = 0; i < k; ++i)
        w.acquire(w.n - k + i);
    CHECK_EQ(w.distinct_held(), w.n, "objects held in the end");
    c.nontrivial();
}

} // namespace

// two of them at once have nothing in common
PROP(two_pools, 20) { twins(c, [&] { prop_histories(c); }); }
