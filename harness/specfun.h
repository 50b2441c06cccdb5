// Special functions of boost are environment: the harness that uses this header defines sx_special.
#pragma once
#include <cmath>
#include <cfloat>
#define BOOST_MATH_SPECIAL_BETA_HPP
#define BOOST_MATH_SF_BINOMIAL_HPP
#define BOOST_SPECIAL_ERF_HPP
#define BOOST_SPECIAL_GAMMA_HPP
#define BOOST_MATH_SPECIAL_ERF_HPP
#define BOOST_MATH_SPECIAL_GAMMA_HPP
#define BOOST_MATH_SF_GAMMA_HPP
#define BOOST_MATH_SF_ERF_HPP
enum SxFun { F_BETA, F_IBETA, F_IBETA_INV, F_GAMMA_P, F_GAMMA_P_INV, F_ERF_INV };
double sx_special(int fun, double a, double b, double c);
namespace boost { namespace math {
namespace constants { template <class T> constexpr T euler() { return (T)0.57721566490153286; } }
template <class A> double digamma(A) { return NAN; }
template <class A> double polygamma(int, A) { return NAN; }
template <class A, class B> double beta(A a, B b) { return sx_special(F_BETA, a, b, 0); }
template <class A, class B, class C> double ibeta(A a, B b, C c) { return sx_special(F_IBETA, a, b, c); }
template <class A, class B, class C> double ibeta_inv(A a, B b, C c) { return sx_special(F_IBETA_INV, a, b, c); }
template <class A, class B> double gamma_p(A a, B b) { return sx_special(F_GAMMA_P, a, b, 0); }
template <class A, class B> double gamma_p_inv(A a, B b) { return sx_special(F_GAMMA_P_INV, a, b, 0); }
template <class A> double erf_inv(A a) { return sx_special(F_ERF_INV, a, 0, 0); }
template <class T> T binomial_coefficient(unsigned n, unsigned k) { if (k > n) return 0; T r = 1; for (unsigned i = 1; i <= k; i++) r = r * (n - k + i) / i; return r; }
} }
