#include "drv.hpp"
#include "../harness/c22.cpp"
// case: "<fn> <a> <b> <bits...>"
static std::vector<int> tr;
static std::uint64_t bits;
static bool nextbit() { bool b = bits & 1; bits = (bits >> 1) | (bits << 63); return b; }
static bool threw;
void klv_ev(int id) { tr.push_back(id); }
bool klv_cond(int) { return nextbit(); }
void klv_may_throw() { if (nextbit()) { threw = true; throw klv_error{}; } }
static std::string show(const std::vector<int>& v) { std::string s; for (int x : v) s += std::to_string(x) + " "; return s; }
std::string run_case(const std::string& c)
{
    auto w = words(c);
    int a = std::stoi(w[1]), b = std::stoi(w[2]);
    bits = std::strtoull(w[3].c_str(), nullptr, 10);
    tr.clear(); threw = false;
    bool exc = false; int rv = 0;
    try {
        if (w[0] == "fall") klv_fall();
        if (w[0] == "exits") rv = klv_exits(a);
        if (w[0] == "values") klv_values(a, b, a % 3);
        if (w[0] == "retval") rv = klv_retval(a);
        if (w[0] == "loop") klv_loop(a);
        if (w[0] == "nested") klv_nested();
        if (w[0] == "same") klv_same_line();
    } catch (const klv_error&) { exc = true; }
    std::vector<int> want;
    if (w[0] == "fall") want = {100, 101, 1, 102};
    if (w[0] == "exits") {
        switch (a) {
        case 0: want = {100, 1}; break;
        case 1: case 2: want = {100, 101, 2, 1}; break;
        case 3: case 4: want = {100, 101, 102, 4, 5, 3, 2, 1}; break;
        case 5: want = {100, 101, 102, 4, 5, 3, 105, 2, 1}; break;
        default: want = threw ? std::vector<int>{100, 101, 102, 4, 5, 3, 2, 1} : std::vector<int>{100, 101, 102, 103, 4, 5, 3, 104, 105, 2, 1};
        }
        if (exc != (a == 2 || a == 4 || threw)) return "wrong exit";
    }
    if (w[0] == "values") want = {a % 3 == 0 || a % 3 == 1 ? b : (b ^ 12345)};
    if (w[0] == "retval") { want = {1}; if (rv != a) return "return value changed"; }
    if (w[0] == "nested") { if (tr.size() != 6) return "events " + show(tr); want = threw ? std::vector<int>{1, 101, 102, tr[3], 2, 3} : std::vector<int>{100, 1, 102, tr[3], 2, 3}; if (tr[3] != 4 && tr[3] != 5) return "events " + show(tr); }
    if (w[0] == "same") want = threw ? std::vector<int>{3, 2, 1} : std::vector<int>{100, 3, 2, 1};
    if (w[0] == "loop") {
        for (std::size_t i = 0; i < tr.size(); ++i) {
            if (tr[i] == 200) { std::size_t j = i + 1; if (j < tr.size() && tr[j] == 201) ++j; if (j >= tr.size() || tr[j] != 1) return "action missing " + show(tr); }
            else if (tr[i] == 1 && (i == 0 || (tr[i - 1] != 200 && tr[i - 1] != 201))) return "action twice " + show(tr);
        }
        return "";
    }
    return tr == want ? "" : "events " + show(tr) + " want " + show(want);
}
std::string gen_case(Rng& r, std::uint64_t)
{
    static const char* f[] = {"fall", "exits", "values", "retval", "loop", "nested", "same"};
    return std::string(r.pick(f)) + " " + std::to_string(r.below(8)) + " " + std::to_string(r.below(100)) + " " + std::to_string(r.next());
}
