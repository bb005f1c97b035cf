// Linear-inequality domain: conjunctions of linear constraints over unsigned
// machine values, with an exact emptiness test (rational simplex, Bland's rule).
#pragma once
#include <boost/multiprecision/cpp_int.hpp>
#include <algorithm>
#include <cstdint>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

namespace lin {
typedef __int128 i128;
struct Overflow {};

static inline i128 mulx(i128 a, i128 b) {
    i128 r;
    if(__builtin_mul_overflow(a, b, &r))
        throw Overflow();
    return r;
}
static inline i128 addx(i128 a, i128 b) {
    i128 r;
    if(__builtin_add_overflow(a, b, &r))
        throw Overflow();
    return r;
}
static inline i128 gcdx(i128 a, i128 b) {
    if(a < 0)
        a = -a;
    if(b < 0)
        b = -b;
    while(b) {
        i128 t = a % b;
        a = b;
        b = t;
    }
    return a;
}

struct Lin {
    std::vector<std::pair<int, i128>> t; // sorted by variable
    i128 c = 0;
    Lin() {}
    explicit Lin(i128 k) : c(k) {}
    static Lin var(int v) {
        Lin l;
        l.t.push_back({v, 1});
        return l;
    }
    bool isConst() const { return t.empty(); }
};
static inline Lin comb(const Lin &a, i128 ka, const Lin &b, i128 kb) {
    Lin r;
    r.c = addx(mulx(a.c, ka), mulx(b.c, kb));
    size_t i = 0, j = 0;
    while(i < a.t.size() || j < b.t.size()) {
        if(j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) {
            if(ka)
                r.t.push_back({a.t[i].first, mulx(a.t[i].second, ka)});
            ++i;
        } else if(i >= a.t.size() || b.t[j].first < a.t[i].first) {
            if(kb)
                r.t.push_back({b.t[j].first, mulx(b.t[j].second, kb)});
            ++j;
        } else {
            i128 k = addx(mulx(a.t[i].second, ka), mulx(b.t[j].second, kb));
            if(k)
                r.t.push_back({a.t[i].first, k});
            ++i;
            ++j;
        }
    }
    return r;
}
static inline Lin operator+(const Lin &a, const Lin &b) { return comb(a, 1, b, 1); }
static inline Lin operator-(const Lin &a, const Lin &b) { return comb(a, 1, b, -1); }
static inline Lin operator*(const Lin &a, i128 k) { return comb(a, k, Lin(), 0); }
static inline Lin operator+(const Lin &a, i128 k) { return a + Lin(k); }
static inline Lin operator-(const Lin &a, i128 k) { return a + Lin(-k); }
static inline bool operator==(const Lin &a, const Lin &b) { return a.c == b.c && a.t == b.t; }

struct Con { // l >= 0, or l == 0
    Lin l;
    bool eq = false;
};

// Rationals on 128-bit integers; Overflow makes the caller retry with big integers.
struct Q {
    i128 n, d;
    Q(i128 a = 0) : n(a), d(1) {}
    Q(i128 a, i128 b) : n(a), d(b) { norm(); }
    void norm() {
        if(d < 0) {
            n = -n;
            d = -d;
        }
        if(d != 1) {
            i128 g = gcdx(n, d);
            if(g > 1) {
                n /= g;
                d /= g;
            }
        }
    }
    bool zero() const { return n == 0; }
    int sgn() const { return n < 0 ? -1 : n > 0; }
};
static inline Q operator*(const Q &a, const Q &b) {
    i128 g1 = gcdx(a.n, b.d), g2 = gcdx(b.n, a.d);
    if(!g1)
        g1 = 1;
    if(!g2)
        g2 = 1;
    return Q(mulx(a.n / g1, b.n / g2), mulx(a.d / g2, b.d / g1));
}
static inline Q operator+(const Q &a, const Q &b) {
    if(a.d == 1 && b.d == 1)
        return Q(addx(a.n, b.n));
    return Q(addx(mulx(a.n, b.d), mulx(b.n, a.d)), mulx(a.d, b.d));
}
static inline Q operator-(const Q &a) { return Q(-a.n, a.d); }
static inline Q operator-(const Q &a, const Q &b) { return a + (-b); }
static inline Q inv(const Q &a) { return Q(a.d, a.n); }
static inline bool operator<(const Q &a, const Q &b) { return (a - b).sgn() < 0; }

typedef boost::multiprecision::cpp_rational BR;
struct QB {
    BR v;
    QB(i128 a = 0) { v = BR(boost::multiprecision::cpp_int(a)); }
    QB(const BR &x) : v(x) {}
    bool zero() const { return v.is_zero(); }
    int sgn() const { return v.sign(); }
};
static inline QB operator*(const QB &a, const QB &b) { return QB(BR(a.v * b.v)); }
static inline QB operator+(const QB &a, const QB &b) { return QB(BR(a.v + b.v)); }
static inline QB operator-(const QB &a, const QB &b) { return QB(BR(a.v - b.v)); }
static inline QB operator-(const QB &a) { return QB(BR(-a.v)); }
static inline QB inv(const QB &a) { return QB(BR(1 / a.v)); }
static inline bool operator<(const QB &a, const QB &b) { return a.v < b.v; }

// Feasibility of { A x + c >= 0 / == 0, x >= 0 } over the rationals.
static inline std::string show(const Q &q) {
    std::string s = q.n < 0 ? "-" : "";
    unsigned __int128 v = q.n < 0 ? -(unsigned __int128)q.n : (unsigned __int128)q.n;
    std::string d;
    do {
        d.insert(d.begin(), char('0' + (int)(v % 10)));
        v /= 10;
    } while(v);
    return s + d + (q.d == 1 ? "" : "/..");
}
static inline std::string show(const QB &q) { return q.v.str(); }

template<typename N>
static bool simplexFeasible(const std::vector<Con> &cs, std::map<int, std::string> *sol = nullptr) {
    std::map<int, int> idx;
    for(auto &c : cs)
        for(auto &p : c.l.t)
            if(!idx.count(p.first)) {
                int k = (int)idx.size();
                idx[p.first] = k;
            }
    int n = (int)idx.size(), m = 0;
    // Column variables 0..n-1 (x >= 0), row variables n.. (s = a.x + c >= 0; == 0).
    std::vector<std::vector<N>> T;
    std::vector<N> val;  // current value of the row variable's constant part
    std::vector<bool> iseq;
    for(auto &c : cs) {
        if(c.l.t.empty()) {
            if(c.eq ? c.l.c != 0 : c.l.c < 0)
                return false;
            continue;
        }
        std::vector<N> row(n, N(0));
        for(auto &p : c.l.t)
            row[idx[p.first]] = N(p.second);
        T.push_back(row);
        val.push_back(N(c.l.c));
        iseq.push_back(c.eq);
        ++m;
    }
    // Basic feasible dictionary form: basic_i = val_i + sum T_ij * nonbasic_j, nonbasic >= 0.
    // Equalities: first pivot them out, fixing the leaving variable at zero.
    std::vector<int> basic(m), nb(n);
    std::vector<bool> fixed(n + m, false); // nonbasic fixed at zero
    for(int i = 0; i < m; ++i)
        basic[i] = n + i;
    for(int j = 0; j < n; ++j)
        nb[j] = j;
    auto pivot = [&](int r, int c) {
        N p = inv(T[r][c]);
        // nb_c = (basic_r - val_r - sum_{j!=c} T_rj nb_j) / T_rc
        N vc = -(val[r] * p);
        std::vector<N> row(n, N(0));
        for(int j = 0; j < n; ++j)
            if(j != c && !T[r][j].zero())
                row[j] = -(T[r][j] * p);
        row[c] = p;
        for(int i = 0; i < m; ++i) {
            if(i == r || T[i][c].zero())
                continue;
            N f = T[i][c];
            val[i] = val[i] + f * vc;
            for(int j = 0; j < n; ++j) {
                if(j == c)
                    T[i][j] = f * row[c];
                else if(!row[j].zero())
                    T[i][j] = T[i][j] + f * row[j];
            }
        }
        T[r] = row;
        val[r] = vc;
        std::swap(basic[r], nb[c]);
    };
    for(int i = 0; i < m; ++i) {
        if(!iseq[i])
            continue;
        if(basic[i] < n)
            continue;
        int c = -1;
        for(int j = 0; j < n; ++j)
            if(!T[i][j].zero() && !fixed[nb[j]]) {
                c = j;
                break;
            }
        if(c < 0) {
            if(!val[i].zero())
                return false;
            continue;
        }
        int eqv = basic[i];
        pivot(i, c);
        fixed[eqv] = true;
    }
    // Dual-style: repair negative basics with Bland's rule.
    for(int iter = 0; iter < 5000; ++iter) {
        int r = -1;
        for(int i = 0; i < m; ++i) {
            if(basic[i] >= n && iseq[basic[i] - n]) {
                continue; // a redundant equality row: constant zero
            }
            if(val[i].sgn() < 0 && (r < 0 || basic[i] < basic[r]))
                r = i;
        }
        if(r < 0) {
            if(sol) {
                for(auto &kv : idx) {
                    (*sol)[kv.first] = "0";
                    for(int i = 0; i < m; ++i)
                        if(basic[i] == kv.second)
                            (*sol)[kv.first] = show(val[i]);
                }
            }
            return true;
        }
        int c = -1;
        for(int j = 0; j < n; ++j)
            if(!fixed[nb[j]] && T[r][j].sgn() > 0 && (c < 0 || nb[j] < nb[c]))
                c = j;
        if(c < 0)
            return false;
        // Raising nb_c from 0 repairs row r; leave via r (nb_c enters with value making r zero).
        pivot(r, c);
    }
    return true; // no verdict: treat as feasible
}

static inline bool feasibleRaw(const std::vector<Con> &cs, std::map<int, std::string> *sol = nullptr) {
    try {
        return simplexFeasible<Q>(cs, sol);
    } catch(Overflow &) {
        return simplexFeasible<QB>(cs, sol);
    }
}
} // namespace lin
