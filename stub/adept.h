// Declaration-only stand-in for the Adept automatic differentiation library, which is not installed in
// this sandbox.  It lets the analyser parse the translation units the offline build leaves out.  Nothing
// here is ever linked or run.
#ifndef VERIF_STUB_ADEPT_H
#define VERIF_STUB_ADEPT_H
#include <vector>
#include <cstddef>
namespace adept {
    struct adouble {
        adouble(double v = 0.);
        adouble &operator=(double v);
        adouble &operator+=(const adouble &); adouble &operator-=(const adouble &);
        adouble &operator*=(const adouble &); adouble &operator/=(const adouble &);
        void set_value(double); double value() const; void set_gradient(double); double get_gradient() const;
        adouble operator-() const;
    };
    adouble operator+(const adouble &, const adouble &); adouble operator-(const adouble &, const adouble &);
    adouble operator*(const adouble &, const adouble &); adouble operator/(const adouble &, const adouble &);
    bool operator<(const adouble &, const adouble &); bool operator>(const adouble &, const adouble &);
    bool operator<=(const adouble &, const adouble &); bool operator>=(const adouble &, const adouble &);
    bool operator==(const adouble &, const adouble &); bool operator!=(const adouble &, const adouble &);
    adouble pow(const adouble &, const adouble &); adouble abs(const adouble &); adouble log(const adouble &);
    adouble exp(const adouble &); adouble sqrt(const adouble &); adouble fabs(const adouble &); adouble max(const adouble &, const adouble &); adouble min(const adouble &, const adouble &);
    template<typename T> double value(const T &);
    void set_values(adouble *, std::size_t, const double *);
    void get_gradients(const adouble *, std::size_t, double *);
    struct Stack {
        void new_recording(); bool pause_recording(); bool continue_recording(); void compute_adjoint(); void reverse();
        void independent(const adouble *, std::size_t); void independent(const adouble &); void dependent(const adouble &); void dependent(const adouble *, std::size_t);
        void jacobian(double *); std::size_t max_gradients();
    };
}
#endif
