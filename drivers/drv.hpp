// Concrete side of a check: runs the real code of /repo on explicit cases.
//   search <seed> <seconds> <casefile>   exit 1 when a case fails; the case is left in casefile
//   replay <file>                        run one case
#pragma once
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <optional>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

struct Rng
{
    std::uint64_t s;
    std::uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        std::uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
    bool coin(unsigned n = 2) { return below(n) == 0; }
    template <class T, std::size_t N>
    const T& pick(const T (&a)[N]) { return a[below(N)]; }
};

// provided by each driver: empty result = fine
std::string run_case(const std::string& c);
std::string gen_case(Rng& r, std::uint64_t i);

inline std::string hex(const std::string& b)
{
    static const char* d = "0123456789abcdef";
    std::string o;
    for (unsigned char c : b) { o += d[c >> 4]; o += d[c & 15]; }
    return o;
}
inline std::string unhex(const std::string& h)
{
    std::string o;
    auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    for (std::size_t i = 0; i + 1 < h.size(); i += 2)
        o += static_cast<char>(v(h[i]) * 16 + v(h[i + 1]));
    return o;
}
inline std::vector<std::string> words(const std::string& s)
{
    std::istringstream is(s);
    std::vector<std::string> r;
    std::string w;
    while (is >> w) r.push_back(w);
    return r;
}
inline std::string rnd_bytes(Rng& r, std::size_t maxn, const char* alphabet = nullptr)
{
    std::size_t n = r.below(maxn + 1);
    std::string s;
    std::size_t al = alphabet ? std::strlen(alphabet) : 0;
    for (std::size_t i = 0; i < n; ++i)
        s += al && !r.coin(8) ? alphabet[r.below(al)] : static_cast<char>(r.next());
    return s;
}

int main(int argc, char** argv)
{
    if (argc >= 3 && std::string(argv[1]) == "replay")
    {
        std::ifstream f(argv[2]);
        std::string c((std::istreambuf_iterator<char>(f)), {});
        std::string e = run_case(c);
        if (e.empty()) return 0;
        std::cout << "FAIL: " << e << std::endl;
        return 1;
    }
    if (argc < 5) return 2;
    Rng rng{std::strtoull(argv[2], nullptr, 10)};
    double secs = std::strtod(argv[3], nullptr);
    int fd = open(argv[4], O_RDWR | O_CREAT | O_TRUNC, 0644);
    const std::size_t cap = 1 << 20;
    if (ftruncate(fd, cap)) return 2;
    char* cur = static_cast<char*>(mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    auto t0 = std::chrono::steady_clock::now();
    std::uint64_t i = 0;
    for (;; ++i)
    {
        if ((i & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
        std::string c = gen_case(rng, i);
        if (c.size() >= cap) continue;
        std::memcpy(cur, c.c_str(), c.size() + 1);
        std::string e = run_case(c);
        if (!e.empty())
        {
            std::cout << "FAIL: " << e << std::endl;
            std::cout << "EVALS " << i + 1 << std::endl;
            std::_Exit(1);
        }
    }
    std::cout << "EVALS " << i << std::endl;
    return 0;
}
