// Replays scripts of saves and loads on the text and binary archives.
#include "common.hpp"
#include <fstream>
#include <vector>
#include <Eigen/Core>
#include <limits>
#include <map>
#include <memory>
#include <cstring>
#include <limbo/serialize/text_archive.hpp>
#include <limbo/serialize/binary_archive.hpp>
using namespace limbo;
using mbv::J;
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
static double num(long id, long k)
{
    static const double T[] = {0., -0., 1., -1., 1. / 3, -2. / 3, 1e-300, -1e300, 1.7976931348623157e308, 2.2250738585072014e-308, 4.9406564584124654e-324, -1e-310, 123456789.123456789, -0.1, 6.02214076e23, 1e15 + 0.5, 3.141592653589793, -2.718281828459045e-5, 5e-320, -1e-5, 9007199254740993., 42., 1e22};
    const long n = sizeof(T) / sizeof(T[0]);
    // the first number identifies the object, the others are taken in the table
    return k == 0 ? id * 1.0009765625e-3 : T[(id * 7 + k * 5) % n];
}
struct Obj {
    std::string kind;
    std::vector<long> sizes;
    std::vector<M> parts;
};
static Obj make(const std::string& kind, const std::vector<long>& sizes, long id)
{
    Obj o{kind, sizes, {}};
    long k = 0;
    auto part = [&](long r, long c) {
        M m(r, c);
        for (long i = 0; i < r; i++)
            for (long j = 0; j < c; j++)
                m(i, j) = num(id, k++);
        o.parts.push_back(m);
    };
    if (kind == "mat")
        part(sizes[0], sizes[1]);
    else if (kind == "vec")
        part(sizes[0], 1);
    else
        for (long s : sizes)
            part(s, 1);
    return o;
}
static bool eq(double a, double b, bool bin)
{
    if (bin)
        return std::memcmp(&a, &b, sizeof(double)) == 0;
    double tol = std::max(std::abs(b) * 5e-15, std::numeric_limits<double>::denorm_min());
    return std::abs(a - b) <= tol || a == b;
}
static long find_id(const std::string& kind, const std::vector<long>& sizes, const std::vector<M>& parts, long maxid, bool bin)
{
    for (long id = 1; id <= maxid; id++) {
        Obj o = make(kind, sizes, id);
        bool ok = o.parts.size() == parts.size();
        for (size_t p = 0; ok && p < parts.size(); p++) {
            ok = o.parts[p].rows() == parts[p].rows() && o.parts[p].cols() == parts[p].cols();
            for (long i = 0; ok && i < parts[p].rows(); i++)
                for (long j = 0; ok && j < parts[p].cols(); j++)
                    ok = eq(parts[p](i, j), o.parts[p](i, j), bin);
        }
        if (ok)
            return id;
    }
    return -1;
}
static M mtarget;
static V vtarget;
static std::vector<V> ltarget;
static long maxid;

template <typename A>
void save(A& a, const Obj& o, const std::string& name)
{
    if (o.kind == "mat")
        a.save(o.parts[0], name);
    else if (o.kind == "vec")
        a.save(V(o.parts[0]), name);
    else {
        std::vector<V> l;
        for (auto& p : o.parts)
            l.push_back(V(p));
        a.save(l, name);
    }
}
template <typename A>
void load(A& a, const std::string& kind, const std::string& name, bool reuse, bool bin, J& j)
{
    std::vector<long> sizes;
    std::vector<M> parts;
    M m;
    V v;
    std::vector<V> l;
    if (kind == "mat") {
        M& t = reuse ? mtarget : m;
        a.load(t, name);
        sizes = {t.rows(), t.cols()};
        parts = {t};
    }
    else if (kind == "vec") {
        V& t = reuse ? vtarget : v;
        a.load(t, name);
        sizes = {t.size()};
        parts = {M(t)};
    }
    else {
        std::vector<V>& t = reuse ? ltarget : l;
        a.load(t, name);
        for (auto& x : t) {
            sizes.push_back(x.size());
            parts.push_back(M(x));
        }
    }
    j.t("kind", kind).li("sizes", sizes).i("id", find_id(kind, sizes, parts, maxid, bin));
}
int main()
{
    std::vector<std::string> t;
    std::map<std::string, std::unique_ptr<serialize::TextArchive>> ta;
    std::map<std::string, std::unique_ptr<serialize::BinaryArchive>> ba;
    while (mbv::next_line(t)) {
        const std::string& c = t[0];
        if (c == "new" || c == "end") {
            if (c == "new") {
                if (system("rm -rf arch") != 0)
                    mbv::die("rm");
                ta.clear();
                ba.clear();
                maxid = 0;
            }
            J(c).emit();
            continue;
        }
        // save fmt dir name how kind id sizes... | load fmt dir name how kind
        std::string dir = "arch/" + t[2];
        bool bin = t[1] == "bin";
        bool how = t[4] == "1";
        if (!ta[dir])
            ta[dir].reset(new serialize::TextArchive(dir));
        if (!ba[dir])
            ba[dir].reset(new serialize::BinaryArchive(dir));
        J j(c);
        j.t("fmt", t[1]).t("dir", t[2]).t("name", t[3]);
        if (c == "save") {
            std::vector<long> sizes;
            for (size_t i = 7; i < t.size(); i++)
                sizes.push_back(std::stol(t[i]));
            long id = std::stol(t[6]);
            maxid = std::max(maxid, id);
            Obj o = make(t[5], sizes, id);
            if (bin) {
                serialize::BinaryArchive tmp(dir);
                save(how ? *ba[dir] : tmp, o, t[3]);
            }
            else {
                serialize::TextArchive tmp(dir);
                save(how ? *ta[dir] : tmp, o, t[3]);
            }
            j.t("kind", t[5]).li("sizes", sizes).i("id", id);
        }
        else {
            if (bin) {
                serialize::BinaryArchive tmp(dir);
                load(how ? *ba[dir] : tmp, t[5], t[3], how, true, j);
            }
            else {
                serialize::TextArchive tmp(dir);
                load(how ? *ta[dir] : tmp, t[5], t[3], how, false, j);
            }
        }
        j.emit();
    }
    return 0;
}
