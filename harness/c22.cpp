#include <kl/defer.hpp>
#include <stdexcept>
extern "C" {
void klv_ev(int id);                       // observable event (also an action)
bool klv_cond(int id);                     // arbitrary decision
void klv_may_throw();                      // arbitrary user code: returns or throws
}
struct klv_error {};
extern "C" {
void klv_fall() { klv_ev(100); { KL_DEFER(klv_ev(1)); klv_ev(101); } klv_ev(102); }
int klv_exits(int k)
{
    KL_DEFER(klv_ev(1));
    klv_ev(100);
    if (k == 0) return 5;
    KL_DEFER(klv_ev(2));
    klv_ev(101);
    if (k == 1) return 6;
    if (k == 2) throw klv_error{};
    {
        KL_DEFER(klv_ev(3));
        KL_DEFER(klv_ev(4); klv_ev(5));
        klv_ev(102);
        if (k == 3) return 7;
        if (k == 4) throw klv_error{};
        if (k == 5) goto out;
        klv_may_throw();
        klv_ev(103);
    }
    klv_ev(104);
out:
    klv_ev(105);
    return 8;
}
void klv_values(int a, int b, int k)
{
    int x = a;
    KL_DEFER(klv_ev(x));
    x = b;
    if (k == 0) throw klv_error{};
    if (k == 1) return;
    x = x ^ 12345;
}
int klv_retval(int a)
{
    int x = a;
    KL_DEFER(x = 0; klv_ev(1));
    return x;
}
void klv_loop(unsigned long n)
{
    for (unsigned long i = 0; i < n; ++i)
    {
        klv_ev(200);
        KL_DEFER(klv_ev(1));
        if (klv_cond(0)) continue;
        if (klv_cond(1)) break;
        if (klv_cond(2)) return;
        klv_may_throw();
        klv_ev(201);
    }
    klv_ev(202);
}
void klv_nested()
{
    KL_DEFER({ KL_DEFER(klv_ev(3)); klv_ev(2); });
    KL_DEFER({
        if (klv_cond(0))
            klv_ev(4);
        else
            klv_ev(5);
    });
    try { KL_DEFER(klv_ev(1)); klv_may_throw(); klv_ev(100); }
    catch (const klv_error&) { klv_ev(101); }
    klv_ev(102);
}
void klv_same_line() { KL_DEFER(klv_ev(1)); KL_DEFER(klv_ev(2)); KL_DEFER(klv_ev(3)); klv_may_throw(); klv_ev(100); }
}
