// Small stand-in for ambit::BlockedTensor: dense arrays over all orbitals, labelled access restricted to the label's
// space and to the blocks a tensor was built with.  Only what generated files may use.
#pragma once
#include <cmath>
#include <cstddef>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace psi {}
namespace ambit {
enum TensorType { CoreTensor };
enum SpinType { NoSpin, AlphaSpin, BetaSpin };
class Labeled;
class Product;
class Sum;

extern int n_core, n_act, n_virt;
extern long n_ops;

struct Data {
    std::string name;
    std::vector<std::string> blocks;
    size_t rank = 0;
    std::vector<double> v;
};

class BlockedTensor {
  public:
    std::shared_ptr<Data> d;
    static BlockedTensor build(TensorType, const std::string& name, const std::vector<std::string>& blocks);
    Labeled operator[](const std::string& labels) const;
    Labeled operator()(const std::string& labels) const;
    Data& data() const;
    void zero();
    void set(double x);
    void scale(double f);
    double norm(int type = 2) const;
    size_t rank() const { return data().rank; }
    bool is_block(const std::string&) const;
    void iterate(const std::function<void(const std::vector<size_t>&, const std::vector<SpinType>&, double&)>& f);
    void citerate(const std::function<void(const std::vector<size_t>&, const std::vector<SpinType>&, const double&)>& f) const;
};

class Labeled {
  public:
    BlockedTensor t;
    std::vector<std::string> l;
    double f = 1.0;
    void operator=(const Labeled&);
    void operator+=(const Labeled&);
    void operator-=(const Labeled&);
    void operator=(const Product&);
    void operator+=(const Product&);
    void operator-=(const Product&);
    void operator=(const Sum&);
    void operator+=(const Sum&);
    void operator-=(const Sum&);
    Labeled(const BlockedTensor& t, const std::vector<std::string>& l, double f = 1.0) : t(t), l(l), f(f) {}
    Labeled(const Labeled&) = default;
    Labeled operator-() const { return Labeled(t, l, -f); }
    operator double() const;
};

class Product {
  public:
    std::vector<Labeled> a;
    double f = 1.0;
    operator double() const;
    Product operator-() const { Product p(*this); p.f = -p.f; return p; }
};

class Sum {
  public:
    std::vector<Product> a;
};

Labeled operator*(double, const Labeled&);
Labeled operator*(const Labeled&, double);
Product operator*(const Labeled&, const Labeled&);
Product operator*(const Product&, const Labeled&);
Product operator*(const Labeled&, const Product&);
Product operator*(double, const Product&);
Product operator*(const Product&, double);
Sum operator+(const Labeled&, const Labeled&);
Sum operator-(const Labeled&, const Labeled&);
Sum operator+(const Product&, const Product&);
Sum operator-(const Product&, const Product&);
Sum operator+(const Labeled&, const Product&);
Sum operator+(const Product&, const Labeled&);
Sum operator-(const Labeled&, const Product&);
Sum operator-(const Product&, const Labeled&);
Sum operator+(const Sum&, const Labeled&);
Sum operator+(const Sum&, const Product&);
Sum operator-(const Sum&, const Labeled&);
Sum operator-(const Sum&, const Product&);
} // namespace ambit
using ambit::BlockedTensor;
using ambit::SpinType;
using ambit::AlphaSpin;
using ambit::BetaSpin;
