#include "ambit_mock.h"
#include <algorithm>
#include <map>
#include <set>
namespace ambit {
int n_core = 0, n_act = 0, n_virt = 0;
long n_ops = 0;
static size_t M() { return n_core + n_act + n_virt; }
using V = std::vector<double>;
using L = std::vector<std::string>;

static char space_of(const std::string& x) {
    if (x.size() > 1) {
        if (std::string("gphcav").find(x[0]) == std::string::npos)
            throw std::runtime_error("unknown orbital label " + x);
        for (size_t i = 1; i < x.size(); ++i)
            if (!isdigit(x[i])) throw std::runtime_error("unknown orbital label " + x);
        return x[0];
    }
    if (std::string("ijklmn").find(x[0]) != std::string::npos) return 'c';
    if (std::string("uvwxyz").find(x[0]) != std::string::npos) return 'a';
    if (std::string("abcdef").find(x[0]) != std::string::npos) return 'v';
    if (std::string("pqrs").find(x[0]) != std::string::npos) return 'g';
    throw std::runtime_error("unknown orbital label " + x);
}
static std::vector<size_t> orbs(char s) {
    std::vector<size_t> r;
    size_t c = n_core, a = n_core + n_act;
    for (size_t i = 0; i < M(); ++i) {
        char e = i < c ? 'c' : (i < a ? 'a' : 'v');
        if (s == e || s == 'g' || (s == 'h' && e != 'v') || (s == 'p' && e != 'c')) r.push_back(i);
    }
    return r;
}
static bool inside(char s, char b) {
    return s == b || b == 'g' || (b == 'h' && (s == 'c' || s == 'a')) || (b == 'p' && (s == 'v' || s == 'a'));
}
static L split(const std::string& s) {
    L r;
    if (s.find(',') == std::string::npos) {
        if (s.size() > 1 && isdigit(s[1])) { r.push_back(s); return r; }
        for (char c : s) r.push_back(std::string(1, c));
        return r;
    }
    std::string cur;
    for (char c : s) {
        if (c == ',') { r.push_back(cur); cur.clear(); }
        else if (c != ' ') cur += c;
    }
    r.push_back(cur);
    return r;
}
BlockedTensor BlockedTensor::build(TensorType, const std::string& name, const std::vector<std::string>& blocks) {
    BlockedTensor t;
    t.d = std::make_shared<Data>();
    t.d->name = name;
    t.d->blocks = blocks;
    if (blocks.empty()) throw std::runtime_error("build without blocks");
    t.d->rank = blocks[0].size();
    size_t n = 1;
    for (char c : blocks[0]) { orbs(c); n *= M(); if (std::string("gphcav").find(c) == std::string::npos) throw std::runtime_error("bad block " + blocks[0]); }
    t.d->v.assign(n, 0.0);
    return t;
}
Data& BlockedTensor::data() const {
    if (!d) throw std::runtime_error("use of a tensor that was not built");
    return *d;
}
void BlockedTensor::zero() { for (auto& x : data().v) x = 0.0; }
void BlockedTensor::set(double y) { for (auto& x : data().v) x = y; }
void BlockedTensor::scale(double f) { for (auto& x : data().v) x *= f; }
double BlockedTensor::norm(int type) const {
    double s = 0.0;
    for (double x : data().v) {
        if (type == 0) s = std::max(s, std::fabs(x));
        else if (type == 1) s += std::fabs(x);
        else s += x * x;
    }
    return type == 2 ? std::sqrt(s) : s;
}
bool BlockedTensor::is_block(const std::string& b) const {
    for (auto& x : data().blocks) {
        bool ok = x.size() == b.size();
        for (size_t i = 0; ok && i < b.size(); ++i) ok = inside(b[i], x[i]);
        if (ok) return true;
    }
    return false;
}
void BlockedTensor::iterate(const std::function<void(const std::vector<size_t>&, const std::vector<SpinType>&, double&)>& f) {
    Data& D = data();
    std::set<std::vector<size_t>> seen;
    for (auto& b : D.blocks) {
        std::vector<std::vector<size_t>> o;
        for (char c : b) o.push_back(orbs(c));
        std::vector<size_t> pos(b.size(), 0), ix(b.size());
        std::vector<SpinType> sp(b.size(), AlphaSpin);
        bool empty = false;
        for (auto& x : o) empty = empty || x.empty();
        if (empty) continue;
        while (true) {
            size_t k = 0;
            for (size_t i = 0; i < b.size(); ++i) { ix[i] = o[i][pos[i]]; k = k * M() + ix[i]; }
            if (seen.insert(ix).second) f(ix, sp, D.v.at(k));
            int i = (int)b.size() - 1;
            while (i >= 0 && ++pos[i] == o[i].size()) pos[i--] = 0;
            if (i < 0) break;
        }
    }
}
void BlockedTensor::citerate(const std::function<void(const std::vector<size_t>&, const std::vector<SpinType>&, const double&)>& f) const {
    BlockedTensor x(*this);
    x.iterate([&](const std::vector<size_t>& i, const std::vector<SpinType>& s, double& v) { f(i, s, v); });
}
Labeled BlockedTensor::operator[](const std::string& labels) const {
    L l = split(labels);
    Data& D = data();
    if (l.size() != D.rank) throw std::runtime_error("wrong number of labels for " + D.name + ": " + labels);
    std::string b;
    for (auto& x : l) b += space_of(x);
    if (!is_block(b)) throw std::runtime_error("tensor " + D.name + " accessed outside its blocks: " + labels);
    return Labeled(*this, l);
}
Labeled BlockedTensor::operator()(const std::string& labels) const { return (*this)[labels]; }

struct Arr { L l; V v; std::vector<size_t> n; };

static Arr take(const Labeled& x) {
    Arr a;
    // repeated labels inside one tensor are not a plain contraction
    std::set<std::string> s(x.l.begin(), x.l.end());
    if (s.size() != x.l.size()) throw std::runtime_error("repeated label in one tensor");
    a.l = x.l;
    std::vector<std::vector<size_t>> o;
    size_t tot = 1;
    for (auto& q : x.l) { o.push_back(orbs(space_of(q))); a.n.push_back(o.back().size()); tot *= o.back().size(); }
    a.v.resize(tot);
    const Data& D = x.t.data();
    std::vector<size_t> pos(x.l.size(), 0);
    for (size_t i = 0; i < tot; ++i) {
        size_t k = 0;
        for (size_t j = 0; j < pos.size(); ++j) k = k * M() + o[j][pos[j]];
        a.v[i] = x.f * D.v.at(k);
        int j = (int)pos.size() - 1;
        while (j >= 0 && ++pos[j] == a.n[j]) pos[j--] = 0;
    }
    return a;
}
static Arr contract(const Arr& A, const Arr& B, const std::set<std::string>& keep) {
    Arr C;
    std::vector<std::string> in;     // summed labels
    std::map<std::string, size_t> n;
    for (size_t i = 0; i < A.l.size(); ++i) n[A.l[i]] = A.n[i];
    for (size_t i = 0; i < B.l.size(); ++i) n[B.l[i]] = B.n[i];
    std::set<std::string> seen;
    for (const Arr* X : {&A, &B})
        for (auto& q : X->l)
            if (seen.insert(q).second) {
                if (keep.count(q)) C.l.push_back(q);
                else in.push_back(q);
            }
    L all = C.l;
    all.insert(all.end(), in.begin(), in.end());
    auto stride = [&](const Arr& X) {
        std::vector<size_t> st(all.size(), 0);
        size_t s = 1;
        for (int i = (int)X.l.size() - 1; i >= 0; --i) {
            for (size_t j = 0; j < all.size(); ++j) if (all[j] == X.l[i]) st[j] += s;
            s *= X.n[i];
        }
        return st;
    };
    auto sa = stride(A), sb = stride(B);
    size_t nc = 1, ni = 1;
    for (auto& q : C.l) { C.n.push_back(n[q]); nc *= n[q]; }
    for (auto& q : in) ni *= n[q];
    C.v.assign(nc, 0.0);
    std::vector<size_t> N;
    for (auto& q : all) N.push_back(n[q]);
    std::vector<size_t> pos(all.size(), 0);
    if (nc == 0 || ni == 0) return C;
    size_t ia = 0, ib = 0;
    const double *pa = A.v.data(), *pb = B.v.data();
    for (size_t c = 0; c < nc; ++c) {
        double s = 0.0;
        for (size_t k = 0; k < ni; ++k) {
            s += pa[ia] * pb[ib];
            int j = (int)pos.size() - 1;
            while (j >= 0) {
                ia += sa[j]; ib += sb[j];
                if (++pos[j] < N[j]) break;
                ia -= sa[j] * N[j]; ib -= sb[j] * N[j];
                pos[j] = 0; --j;
            }
        }
        C.v[c] = s;
    }
    n_ops++;
    return C;
}
static Arr eval(const Product& p, const L& out) {
    if (p.a.empty()) throw std::runtime_error("empty product");
    std::set<std::string> o(out.begin(), out.end());
    Arr acc;
    acc.v = {p.f};
    for (size_t i = 0; i < p.a.size(); ++i) {
        std::set<std::string> keep = o;
        for (size_t j = i + 1; j < p.a.size(); ++j) keep.insert(p.a[j].l.begin(), p.a[j].l.end());
        acc = contract(acc, take(p.a[i]), keep);
    }
    for (auto& q : out)
        if (std::find(acc.l.begin(), acc.l.end(), q) == acc.l.end()) throw std::runtime_error("target label " + q + " missing on the right");
    return acc;
}
static void store(const Labeled& tgt, const std::vector<Product>& ps, int how) {
    Data& D = tgt.t.data();
    std::set<std::string> s(tgt.l.begin(), tgt.l.end());
    if (s.size() != tgt.l.size()) throw std::runtime_error("repeated label in target");
    std::vector<Arr> rs;
    for (auto& p : ps) rs.push_back(eval(p, tgt.l));       // evaluate everything before writing
    std::vector<std::vector<size_t>> o;
    size_t tot = 1;
    for (auto& q : tgt.l) { o.push_back(orbs(space_of(q))); tot *= o.back().size(); }
    std::vector<size_t> pos(tgt.l.size(), 0);
    for (size_t i = 0; i < tot; ++i) {
        double v = 0.0;
        for (auto& r : rs) {
            size_t k = 0;
            for (size_t j = 0; j < r.l.size(); ++j) {
                size_t w = std::find(tgt.l.begin(), tgt.l.end(), r.l[j]) - tgt.l.begin();
                k = k * r.n[j] + pos[w];
            }
            v += r.v.at(k);
        }
        size_t k = 0;
        for (size_t j = 0; j < pos.size(); ++j) k = k * M() + o[j][pos[j]];
        if (how == 0) D.v.at(k) = v;
        else D.v.at(k) += how * v;
        int j = (int)pos.size() - 1;
        while (j >= 0 && ++pos[j] == o[j].size()) pos[j--] = 0;
    }
}
static Product P(const Labeled& x) { Product p; p.a = {x}; return p; }
static std::vector<Product> one(const Product& p) { return {p}; }
void Labeled::operator=(const Labeled& x) { store(*this, one(P(x)), 0); }
void Labeled::operator+=(const Labeled& x) { store(*this, one(P(x)), 1); }
void Labeled::operator-=(const Labeled& x) { store(*this, one(P(x)), -1); }
void Labeled::operator=(const Product& x) { store(*this, one(x), 0); }
void Labeled::operator+=(const Product& x) { store(*this, one(x), 1); }
void Labeled::operator-=(const Product& x) { store(*this, one(x), -1); }
void Labeled::operator=(const Sum& x) { store(*this, x.a, 0); }
void Labeled::operator+=(const Sum& x) { store(*this, x.a, 1); }
void Labeled::operator-=(const Sum& x) { store(*this, x.a, -1); }
static double num(const Product& p) {
    Arr a = eval(p, L());
    if (!a.l.empty()) throw std::runtime_error("scalar expression has open labels");
    return a.v.at(0);
}
Labeled::operator double() const { return num(P(*this)); }
Product::operator double() const { return num(*this); }
Labeled operator*(double f, const Labeled& x) { return Labeled(x.t, x.l, f * x.f); }
Labeled operator*(const Labeled& x, double f) { return f * x; }
Product operator*(const Labeled& x, const Labeled& y) { Product p; p.a = {x, y}; return p; }
Product operator*(const Product& x, const Labeled& y) { Product p(x); p.a.push_back(y); return p; }
Product operator*(const Labeled& x, const Product& y) { Product p(y); p.a.insert(p.a.begin(), x); return p; }
Product operator*(double f, const Product& x) { Product p(x); p.f *= f; return p; }
Product operator*(const Product& x, double f) { return f * x; }
static Sum mk(const Product& x, const Product& y) { Sum s; s.a = {x, y}; return s; }
Sum operator+(const Labeled& x, const Labeled& y) { return mk(P(x), P(y)); }
Sum operator-(const Labeled& x, const Labeled& y) { return mk(P(x), -P(y)); }
Sum operator+(const Product& x, const Product& y) { return mk(x, y); }
Sum operator-(const Product& x, const Product& y) { return mk(x, -y); }
Sum operator+(const Labeled& x, const Product& y) { return mk(P(x), y); }
Sum operator+(const Product& x, const Labeled& y) { return mk(x, P(y)); }
Sum operator-(const Labeled& x, const Product& y) { return mk(P(x), -y); }
Sum operator-(const Product& x, const Labeled& y) { return mk(x, -P(y)); }
Sum operator+(const Sum& s, const Labeled& y) { Sum r(s); r.a.push_back(P(y)); return r; }
Sum operator+(const Sum& s, const Product& y) { Sum r(s); r.a.push_back(y); return r; }
Sum operator-(const Sum& s, const Labeled& y) { Sum r(s); r.a.push_back(-P(y)); return r; }
Sum operator-(const Sum& s, const Product& y) { Sum r(s); r.a.push_back(-y); return r; }
} // namespace ambit
