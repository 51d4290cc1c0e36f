// tools/parallel.hpp: begin and end of every body.
#include "common.hpp"
#include <atomic>
#include <thread>
#include <list>
#include <limbo/tools/parallel.hpp>
using namespace limbo;
using mbv::J;
static std::atomic<unsigned> jitter;
static void work()
{
    unsigned j = jitter++;
    unsigned k = (j * 2654435761u) >> 28;
    if (k < 3)
        std::this_thread::sleep_for(std::chrono::microseconds(30 * k + 20));
    else if (k < 10)
        std::this_thread::yield();
}
static void body(long i, long j = 0)
{
    J("b").i("i", i).i("j", j).emit();
    work();
    J("n").i("i", i).i("j", j).emit();
}
// par::vector is either the vector or a struct with the vector as ::type
template <typename T, typename = void>
struct Vec {
    using type = T;
};
template <typename T>
struct Vec<T, decltype((void)sizeof(typename T::type))> {
    using type = typename T::type;
};
struct Item {
    long id, key;
};
int main()
{
    std::vector<std::string> t;
    tools::par::init();
    int turn = 0;
    while (mbv::next_line(t)) { // k lo n init desc inner json keys
        std::string k = t[0];
        long lo = std::stol(t[1]), n = std::stol(t[2]), init = std::stol(t[3]), inner = std::stol(t[5]);
        bool desc = t[4] == "1";
        std::vector<long> keys;
        for (size_t i = 7; i < t.size(); i++)
            keys.push_back(std::stol(t[i]));
        J("new").raw("op", t[6]).emit();
        std::vector<long> r;
        turn++;
        auto better = [&](const Item& a, const Item& b) { return desc ? a.key < b.key : a.key > b.key; };
        if (k == "loop")
            tools::par::loop(lo, lo + n, [&](size_t i) { body(i); });
        else if (k == "big") {
            std::vector<std::atomic<int>> c(n);
            std::atomic<long> other(0);
            for (auto& x : c)
                x = 0;
            tools::par::loop(lo, lo + n, [&](size_t i) { if ((long)i < lo || (long)i >= lo + n) other++; else c[i - lo]++; });
            long once = 0;
            for (auto& x : c)
                if (x == 1)
                    once++;
                else
                    other++;
            r = {once, other};
        }
        else if (k == "nested")
            tools::par::loop(lo, lo + n, [&](size_t i) {
                J("b").i("i", i).i("j", 0).emit();
                tools::par::loop(1, inner + 1, [&](size_t j) { body(i, j); });
                J("n").i("i", i).i("j", 0).emit();
            });
        else if (k == "foreach") {
            if (turn % 2) {
                std::vector<long> v;
                for (long i = 1; i <= n; i++)
                    v.push_back(i);
                tools::par::for_each(v.begin(), v.end(), [&](long& i) { body(i); i += 1000; });
                r = v;
            }
            else {
                std::list<long> v;
                for (long i = 1; i <= n; i++)
                    v.push_back(i);
                tools::par::for_each(v.begin(), v.end(), [&](long& i) { body(i); i += 1000; });
                r.assign(v.begin(), v.end());
            }
        }
        else if (k == "replicate") {
            std::atomic<long> c(0);
            tools::par::replicate(n, [&]() { body(++c); });
        }
        else if (k == "max") {
            Item b = tools::par::max(Item{-1, init}, (int)n, [&](int i) {
                J("b").i("i", i).i("j", 0).emit();
                work();
                J("n").i("i", i).i("j", 0).emit();
                return Item{i, keys[i]}; }, better);
            r.push_back(b.id);
        }
        else if (k == "sort") {
            std::vector<Item> v;
            for (long i = 0; i < n; i++)
                v.push_back(Item{i + 1, keys[i]});
            tools::par::sort(v.begin(), v.end(), better);
            for (auto& x : v)
                r.push_back(x.id);
        }
        else if (k == "collect") {
            Vec<tools::par::vector<long>>::type v; // appended to by several threads
            tools::par::loop(0, n, [&](size_t i) {
                J("b").i("i", i).i("j", 0).emit();
                work();
                v.push_back(i);
                J("n").i("i", i).i("j", 0).emit();
            });
            auto w = tools::par::convert_vector(v);
            for (size_t i = 0; i < w.size(); i++)
                r.push_back(w[i]);
        }
        else
            mbv::die("unknown " + k);
        J("return").li("r", r).emit();
    }
    return 0;
}
